// Records what xme::Delegate does to its targets: their lifetimes and the storage they ask for.
#include "track.hpp"
#include <optional>
#include <utility>
#include <xme/core/functional/delegate.hpp>
using namespace vp;

// storage of targets goes through these
template<typename T> struct Stored {
    static void* operator new(std::size_t n) { return get(n); }
    static void* operator new(std::size_t n, std::align_val_t) { return get(n); }
    static void* operator new(std::size_t, void* p) noexcept { return p; }
    static void operator delete(void* p) noexcept { put(p); }
    static void operator delete(void* p, std::align_val_t) noexcept { put(p); }
    static void operator delete(void*, void*) noexcept {}
    static void* get(std::size_t n) { if(n != sizeof(T)) { log().line("[\"ctor\",0,0]"); } return LogAlloc<T>{}.allocate(1); }
    static void put(void* p) { if(p) LogAlloc<T>{}.deallocate(static_cast<T*>(p), 1); }
};
template<int K> struct Small : Tracked<K>, Stored<Small<K>> { using Tracked<K>::Tracked; int operator()(int x) { return this->value() + x; } };
template<int K> struct Big : Tracked<K>, Stored<Big<K>> { using Tracked<K>::Tracked; long pad[9] = {}; int operator()(int x) { return this->value() + x; } };
template<int K> struct alignas(64) Over : Tracked<K>, Stored<Over<K>> { using Tracked<K>::Tracked; int operator()(int x) { return reinterpret_cast<std::uintptr_t>(this) % 64 ? -1 : this->value() + x; } };
struct Plain : TCopy { using TCopy::TCopy; int operator()(int x) const { return value() + x; } };   // global operator new
static int f10(int x) { return x + 10; } static int f11(int x) { return x + 11; } static int f12(int x) { return x + 12; }

using D = xme::Delegate<int(int)>;
using T2 = Small<COPYABLE | NOTHROW_MOVE>; using T3 = Big<COPYABLE | NOTHROW_MOVE>; using T4 = Over<COPYABLE | NOTHROW_MOVE>;
using T5 = Small<COPYABLE>; using T6 = Plain; using T7 = Big<COPYABLE>;
using F = int (*)(int);
static std::optional<D> slot[4];
static std::string held(const D& d) {
    int k = 0, v = 0, hits = 0;
    if(auto p = d.handle<F>()) { k = 1; v = *p == &f10 ? 10 : *p == &f11 ? 11 : 12; ++hits; }
    auto one = [&]<typename T>(int kk, std::type_identity<T>) { if(auto* p = d.handle<T>()) { k = kk; v = p->value(); ++hits; } };
    one(2, std::type_identity<T2>{}); one(3, std::type_identity<T3>{}); one(4, std::type_identity<T4>{}); one(5, std::type_identity<T5>{}); one(6, std::type_identity<T6>{}); one(7, std::type_identity<T7>{});
    if(hits != int(bool(d))) k = 99;
    return "[" + std::to_string(k) + "," + std::to_string(v) + "]";
}
int main(int argc, char** argv) {
    Script s;
    log().open(argv[argc - 1]);
    bool first = true;
    for(auto& x : slot) x.emplace();
    while(s.next()) {
        const auto op = s.op();
        if(op == "end") break;
        if(op == "reset") {
            for(auto& x : slot) { x.reset(); x.emplace(); }
            log().line("[\"reset\"]");
            log().reset_ids(); log().temps.clear(); log().blocks.clear();
            std::puts("ok"); continue;
        }
        long fault = 0;
        // op i j kind value [fault]
        const int i = int(s.num(1)), j = int(s.num(2)), k = int(s.num(3)), v = int(s.num(4));
        if(s.tok.size() > 5) fault = s.num(5);
        log().line("[\"call\",\"" + op + "\"," + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(k) + "," + std::to_string(v) + "]");
        bool exc = false;
        log().actions = 0;
        if(op == "ctor" || op == "ctorl" || op == "assign" || op == "assignl") {
            auto go = [&]<typename T>(std::type_identity<T>) {
                T t(Val{v});
                struct Arm { Arm(long f) { log().countdown = f; } ~Arm() { log().countdown = 0; } };
                Arm a(fault);
                try {
                    if(op == "ctor") { slot[i].reset(); slot[i].emplace(std::move(t)); }
                    else if(op == "ctorl") { slot[i].reset(); slot[i].emplace(t); }
                    else if(op == "assign") *slot[i] = std::move(t);
                    else *slot[i] = std::as_const(t);
                } catch(const Boom&) { exc = true; }
            };
            if(k == 1) { F f = v == 10 ? &f10 : v == 11 ? &f11 : &f12; if(op[0] == 'c') { slot[i].reset(); slot[i].emplace(f); } else *slot[i] = f; }
            else if(k == 2) go(std::type_identity<T2>{}); else if(k == 3) go(std::type_identity<T3>{}); else if(k == 4) go(std::type_identity<T4>{});
            else if(k == 5) go(std::type_identity<T5>{}); else if(k == 6) go(std::type_identity<T6>{}); else go(std::type_identity<T7>{});
        } else {
            log().countdown = fault;
            try {
                if(op == "null0") {}
                else if(op == "copyctor") { slot[i].reset(); slot[i].emplace(std::as_const(*slot[j])); }
                else if(op == "copyassign") *slot[i] = std::as_const(*slot[j]);
                else if(op == "movector") { slot[i].reset(); slot[i].emplace(std::move(*slot[j])); }
                else if(op == "moveassign") *slot[i] = std::move(*slot[j]);
                else if(op == "swap") slot[i]->swap(*slot[j]);
                else if(op == "null") *slot[i] = nullptr;
                else if(op == "default") slot[i].reset();
                else if(op == "call") { try { if((*slot[i])(5) < 0) std::abort(); } catch(const std::bad_function_call&) {} }
                else if(op == "destroyall") for(auto& x : slot) x.reset();
            } catch(const Boom&) { exc = true; }
        }
        log().countdown = 0;
        for(auto& x : slot) if(!x) x.emplace();
        log().line("[\"ret\"," + std::to_string(exc) + "," + held(*slot[1]) + "," + held(*slot[2]) + "," + held(*slot[3]) + "]");
        std::printf("%ld\n", log().actions);
        std::fflush(stdout);
    }
    for(auto& x : slot) x.reset();
    log().line("[\"quit\"]");
    log().close();
    std::puts("bye");
}
