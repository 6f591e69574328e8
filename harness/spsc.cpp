// Drives xme::SPSCQueue sequentially through its public interface: argv = element, "s<N>" or "d<N>", trace file.
#include "track.hpp"
#include <bit>
#include <xme/container/spsc_queue.hpp>
using namespace vp;

template<typename T, typename Policy, bool Dynamic>
struct Driver {
    using Q = xme::SPSCQueue<T, Policy>;
    using E = Elem<T>;
    static constexpr bool tracked = requires(const T& t) { t.value(); };
    long cap;
    std::string kind;
    struct Frame { unsigned char before[64]; alignas(Q) unsigned char room[sizeof(Q)]; unsigned char after[64]; };
    Frame* f = new Frame;
    Q* q = nullptr;

    void make() {
        std::memset(f, 0xA5, sizeof *f);
        if constexpr(Dynamic) q = ::new(f->room) Q(std::size_t(cap));
        else {
            if constexpr(tracked) {
                Block b{reinterpret_cast<std::uintptr_t>(f->room), sizeof(Q), sizeof(T), log().next_block++, long(sizeof(Q) / sizeof(T) + 1)};
                log().blocks[b.base] = b;
                log().line("[\"alloc\"," + std::to_string(b.id) + "," + std::to_string(b.n) + "]");
            }
            q = ::new(f->room) Q();
        }
    }
    void drop() {
        if(!q) return;
        q->~Q();
        q = nullptr;
        if constexpr(!Dynamic && tracked) {
            auto& b = log().blocks[reinterpret_cast<std::uintptr_t>(f->room)];
            log().line("[\"dealloc\"," + std::to_string(b.id) + "," + std::to_string(b.n) + "]");
            log().blocks.erase(reinterpret_cast<std::uintptr_t>(f->room));
        }
    }
    bool intact() const { for(int i = 0; i < 64; ++i) if(f->before[i] != 0xA5 || f->after[i] != 0xA5) return false; return true; }
    static void arm(long k) { log().countdown = k; log().actions = 0; }

    void run() {
        Script s;
        long pending = 0;
        while(s.next()) {
            auto& op = s.op();
            if(op == "end") { drop(); log().line("[\"quit\"]"); log().close(); std::puts("bye"); delete f; return; }
            if(op == "reset") { drop(); log().line("[\"reset\",\"" + kind + "\"]"); log().reset_ids(); if(!log().out) make(); std::puts("ok"); continue; }
            if(op == "arm") { pending = s.num(1); std::puts("ok"); continue; }
            if((op == "pop" || op == "consume" || op == "peekpop") && q->read_available() == 0) { pending = 0; std::puts("empty"); continue; }
            long v = op == "new" ? cap : s.tok.size() > 1 ? s.num(1) : 0, r = -2;
            bool exc = false;
            auto call = [&] { log().line("[\"call\",\"" + op + "\"," + std::to_string(v) + "]"); arm(pending); };
            try {
                if(op == "new") { call(); make(); }
                else if(op == "delete") { call(); drop(); }
                else if(op == "push") { T x = E::make(v); call(); r = q->push(std::move(x)); log().countdown = 0; }
                else if(op == "pushl") { if constexpr(E::copyable) { T x = E::make(v); call(); r = q->push(std::as_const(x)); log().countdown = 0; } else { T x = E::make(v); call(); r = q->push(std::move(x)); log().countdown = 0; } }
                else if(op == "emplace") { if constexpr(tracked) { call(); r = q->emplace(Val{int(v)}); } else { call(); r = q->emplace(E::make(v)); } log().countdown = 0; }
                else if(op == "pop") { call(); q->pop(); }
                else if(op == "consume") { int n = 0; call(); q->consume([&](auto&& x) { ++n; T y(std::move(x)); r = E::read(y); }); if(n != 1) r = -33; }
                else if(op == "peekpop") { int n = 0; call(); q->consume([&](const T& x) { ++n; r = E::read(x); }); if(n != 1) r = -33; }
                else return std::exit(3);
            }
            catch(const Boom&) { exc = true; if(op == "new") { if constexpr(!Dynamic) std::exit(4); q = nullptr; } }
            log().countdown = 0;
            pending = 0;
            long ra = q ? long(q->read_available()) : -1, wa = q ? long(q->write_available()) : -1;
            if(log().out) log().line("[\"ret\"," + std::to_string(exc) + "," + std::to_string(r) + "," + std::to_string(ra) + "," + std::to_string(wa) + "]");
            std::printf("%s%s%ld %ld %ld %ld\n", intact() ? "" : "INCONSISTENT memory next to the queue ", exc ? "throw " : "", r, ra, wa, log().actions);
        }
    }
};

template<typename T>
int go(const std::string& q, long n, const std::string& kind) {
    using A = std::conditional_t<requires(const T& t) { t.value(); }, LogAlloc<T>, std::allocator<T>>;
    if(q[0] == 'd') Driver<T, A, true>{n, kind}.run();
    else if(n == 1) Driver<T, xme::Capacity<1>, false>{n, kind}.run();
    else if(n == 2) Driver<T, xme::Capacity<2>, false>{n, kind}.run();
    else if(n == 4) Driver<T, xme::Capacity<4>, false>{n, kind}.run();
    else if(n == 8) Driver<T, xme::Capacity<8>, false>{n, kind}.run();
    else if(n == 16) Driver<T, xme::Capacity<16>, false>{n, kind}.run();
    else if(n == 64) Driver<T, xme::Capacity<64>, false>{n, kind}.run();
    else return 3;
    return 0;
}
int main(int argc, char** argv) {
    std::string t = argv[1], q = argv[2];
    long n = std::atol(q.c_str() + 1);
    if(argc > 3) log().open(argv[3]);
    if(t == "int") return go<int>(q, n, t + " " + q);
    if(t == "byte") return go<unsigned char>(q, n, t + " " + q);
    if(t == "string") return go<std::string>(q, n, t + " " + q);
    if(t == "unique") return go<std::unique_ptr<int>>(q, n, t + " " + q);
    if(t == "wide") return go<Wide>(q, n, t + " " + q);
    if(t == "copy") return go<TCopy>(q, n, t + " " + q);
    if(t == "throw") return go<TThrow>(q, n, t + " " + q);
    if(t == "move") return go<TMove>(q, n, t + " " + q);
    return 3;
}
