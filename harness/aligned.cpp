// Drives xme::AlignedData: argv = element type, alignment (as exponent), placement.
#include "track.hpp"
#include <xme/container/aligned_data.hpp>
using namespace vp;

template<int N> struct Blob {                           // N bytes, every one of them telling
    unsigned char b[N];
    Blob(int v) { for(int i = 0; i < N; ++i) b[i] = static_cast<unsigned char>(v * 31 + i); }
    int value() const { for(int v = 1; v < 8; ++v) { bool ok = true; for(int i = 0; i < N; ++i) ok = ok && b[i] == static_cast<unsigned char>(v * 31 + i); if(ok) return v; } return -1; }
};
template<int A> struct alignas(A) Big { int v; explicit Big(int x) : v(x) {} int value() const { return reinterpret_cast<std::uintptr_t>(this) % A == 0 ? v : -1; } };
struct Aggregate { char c; int v; };
inline int live = 0;
struct Self {                                           // knows its address; counts
    int v; const Self* me;
    Self(std::unique_ptr<int> p, const int& w) : v(*p), me(this) { if(w != v) v = -1; ++live; }
    Self(const Self&) = delete;
    Self& operator=(std::unique_ptr<int> p) { v = *p; return *this; }
    ~Self() { --live; v = -9; }
    int value() const { return me == this ? v : -1; }
};
struct Amp : Blob<5> { using Blob::Blob; Amp* operator&() const { return nullptr; } };
struct Category {                                       // tells lvalues from rvalues
    int v;
    struct Arg { int v; };
    Category(const Arg& a) : v(a.v) {}
    Category(Arg&& a) : v(a.v + 10) {}
    int value() const { return v > 10 ? v - 10 : v; }
};

template<typename T> struct Kind {
    static T* make(void* p, int v) { return ::new(p) T(v); }
    template<typename S> static S* born(void* p, int v) { return ::new(p) S(v); }
    template<typename S> static S* bornl(void* p, int v) { const int w = v; return ::new(p) S(w); }
    static void put(T& t, int v) { t = T(v); }
    static int read(const T& t) { return t.value(); }
};
template<typename T> requires std::is_arithmetic_v<T>
struct Kind<T> {
    static T* make(void* p, int v) { return ::new(p) T(v); }
    template<typename S> static S* born(void* p, int v) { return ::new(p) S(v); }
    template<typename S> static S* bornl(void* p, int v) { const T w = T(v); return ::new(p) S(w); }
    static void put(T& t, int v) { t = T(v); }
    static int read(const T& t) { return int(t); }
};
template<> struct Kind<std::string> {
    static std::string text(int v) { return std::string(v % 2 ? 60 : 3, char('a' + v)); }
    static std::string* make(void* p, int v) { return ::new(p) std::string(text(v)); }
    template<typename S> static S* born(void* p, int v) { return ::new(p) S(v % 2 ? 60 : 3, char('a' + v)); }
    template<typename S> static S* bornl(void* p, int v) { const auto w = text(v); return ::new(p) S(w); }
    static void put(std::string& t, int v) { t = text(v); }
    static int read(const std::string& t) { for(int v = 1; v < 8; ++v) if(t == text(v)) return v; return -1; }
};
template<> struct Kind<Aggregate> {
    static Aggregate* make(void* p, int v) { return ::new(p) Aggregate{'x', v}; }
    template<typename S> static S* born(void* p, int v) { return ::new(p) S(Aggregate{'x', v}); }
    template<typename S> static S* bornl(void* p, int v) { const Aggregate w{'x', v}; return ::new(p) S(w); }
    static void put(Aggregate& t, int v) { t.v = v; }
    static int read(const Aggregate& t) { return t.c == 'x' ? t.v : -1; }
};
template<> struct Kind<Self> {
    static Self* make(void* p, int v) { return ::new(p) Self(std::make_unique<int>(v), v); }
    template<typename S> static S* born(void* p, int v) { return ::new(p) S(std::make_unique<int>(v), v); }
    template<typename S> static S* bornl(void* p, int v) { auto u = std::make_unique<int>(v); auto* r = ::new(p) S(std::move(u), v); if(u) std::puts("INCONSISTENT moved"); return r; }
    static void put(Self& t, int v) { t = std::make_unique<int>(v); }
    static int read(const Self& t) { return t.value(); }
};
template<> struct Kind<Category> {
    static Category* make(void* p, int v) { return ::new(p) Category(Category::Arg{v}); }
    template<typename S> static S* born(void* p, int v) { auto* r = ::new(p) S(Category::Arg{v}); if(r->data()->v < 10) std::puts("INCONSISTENT rvalue"); return r; }
    template<typename S> static S* bornl(void* p, int v) { Category::Arg a{v}; auto* r = ::new(p) S(a); if(r->data()->v > 10) std::puts("INCONSISTENT lvalue"); return r; }
    static void put(Category& t, int v) { t.v = v; }
    static int read(const Category& t) { return t.value(); }
};

template<typename S> struct Odd { char before[3]; S a; unsigned char between; S b; S c; unsigned short after; };   // members at odd places
template<typename S> struct Row { char before; S s[3]; char after; };

template<typename T, std::size_t A>
struct Driver {
    using S = xme::AlignedData<T, A>;
    using K = Kind<T>;
    S* slot[3];
    int has[3] = {};
    unsigned char* guard[4]; std::size_t guards[4];
    static constexpr unsigned char Fill = 0x5A;

    std::string state() {
        std::string r;
        for(int i = 0; i < 3; ++i) {
            auto a = reinterpret_cast<std::uintptr_t>(slot[i]->address());
            const S& cs = *slot[i];
            if(a % A) return "misaligned address of slot " + std::to_string(i);
            if(slot[i]->data() != slot[i]->address() || cs.data() != cs.address() || cs.address() != slot[i]->address()) return "accessors";
            auto st = reinterpret_cast<std::uintptr_t>(slot[i]);
            if(a < st || a + sizeof(T) > st + sizeof(S)) return "the object leaves its storage";
            r += (i ? "," : "") + std::to_string(has[i] ? K::read(*slot[i]->data()) : 0);
            if(has[i] && K::read(*cs.data()) != K::read(*slot[i]->data())) return "const accessor";
        }
        for(int i = 0; i < 4; ++i) for(std::size_t k = 0; k < guards[i]; ++k) if(guard[i][k] != Fill) return "neighbours";
        if constexpr(std::is_same_v<T, Self>) if(live != has[0] + has[1] + has[2]) return "live objects";
        return r;
    }
    template<typename P> void drop(P& p, int i) {
        if(has[i]) { std::destroy_at(slot[i]->data()); has[i] = 0; }
        (void)p;
    }
    void use() {
        Script s;
        int none = 0;
        while(s.next()) {
            auto& op = s.op();
            if(op == "end") { for(int i = 0; i < 3; ++i) drop(none, i); std::puts("bye"); return; }
            if(op == "reset") { for(int i = 0; i < 3; ++i) { drop(none, i); std::destroy_at(slot[i]); ::new(static_cast<void*>(slot[i])) S(); } std::puts("ok"); continue; }
            int i = int(s.num(1)) - 1, v = int(s.num(2));
            if(op == "make") { K::make(slot[i]->address(), v); has[i] = 1; }
            else if(op == "born") { void* p = slot[i]; std::destroy_at(slot[i]); slot[i] = K::template born<S>(p, v); has[i] = 1; }
            else if(op == "bornl") { void* p = slot[i]; std::destroy_at(slot[i]); slot[i] = K::template bornl<S>(p, v); has[i] = 1; }
            else if(op == "renew") { void* p = slot[i]; std::destroy_at(slot[i]); slot[i] = ::new(p) S(); }
            else if(op == "put") K::put(*slot[i]->data(), v);
            else if(op == "drop") drop(none, i);
            std::puts(state().c_str());
        }
    }
    void run(const std::string& where) {
        for(auto& g : guards) g = 0;
        if(where == "stack") {
            char pad[5]; (void)pad;
            Odd<S> o{};
            slot[0] = &o.a; slot[1] = &o.b; slot[2] = &o.c;
            guard[0] = reinterpret_cast<unsigned char*>(o.before); guards[0] = 3; guard[1] = &o.between; guards[1] = 1; guard[2] = reinterpret_cast<unsigned char*>(&o.after); guards[2] = 2;
            for(int i = 0; i < 4; ++i) for(std::size_t k = 0; k < guards[i]; ++k) guard[i][k] = Fill;
            use();
        }
        else if(where == "array") {
            auto* o = new Row<S>{};
            slot[0] = &o->s[0]; slot[1] = &o->s[1]; slot[2] = &o->s[2];
            guard[0] = reinterpret_cast<unsigned char*>(&o->before); guards[0] = 1; guard[1] = reinterpret_cast<unsigned char*>(&o->after); guards[1] = 1;
            *guard[0] = *guard[1] = Fill;
            use();
            delete o;
        }
        else if(where == "apart") {                     // three separate objects of static, automatic and heap storage
            static S a;
            S b;
            auto c = std::make_unique<S>();
            slot[0] = &a; slot[1] = &b; slot[2] = c.get();
            use();
        }
        else {                                          // storage inside of storage
            xme::AlignedData<Row<S>, (alignof(S) > 256 ? alignof(S) : 256)> outer;
            auto* o = ::new(outer.address()) Row<S>{};
            slot[2] = &o->s[0]; slot[0] = &o->s[1]; slot[1] = &o->s[2];
            guard[0] = reinterpret_cast<unsigned char*>(&o->before); guards[0] = 1; guard[1] = reinterpret_cast<unsigned char*>(&o->after); guards[1] = 1;
            *guard[0] = *guard[1] = Fill;
            use();
        }
    }
};
template<typename T> void go(int e, const std::string& w) {
    // at least the alignment of the element; less only where the language allows it
    if(e < 0) { using S = xme::AlignedData<T>; static_assert(alignof(S) >= alignof(T)); return Driver<T, alignof(T)>{}.run(w); }
    auto with = [&]<int E>(std::integral_constant<int, E>) { if constexpr((1u << E) >= alignof(T)) Driver<T, (1u << E)>{}.run(w); else Driver<T, alignof(T)>{}.run(w); };
    if(e == 0) with(std::integral_constant<int, 0>{});
    else if(e == 2) with(std::integral_constant<int, 2>{});
    else if(e == 4) with(std::integral_constant<int, 4>{});
    else if(e == 5) with(std::integral_constant<int, 5>{});
    else if(e == 7) with(std::integral_constant<int, 7>{});
    else with(std::integral_constant<int, 12>{});
}
int main(int, char** a) {
    std::string t = a[1], w = a[3];
    int e = std::atoi(a[2]);
    if(t == "char") go<unsigned char>(e, w);
    else if(t == "int") go<int>(e, w);
    else if(t == "double") go<double>(e, w);
    else if(t == "ldouble") go<long double>(e, w);
    else if(t == "blob3") go<Blob<3>>(e, w);
    else if(t == "blob17") go<Blob<17>>(e, w);
    else if(t == "blob200") go<Blob<200>>(e, w);
    else if(t == "big") go<Big<64>>(e, w);
    else if(t == "string") go<std::string>(e, w);
    else if(t == "aggregate") go<Aggregate>(e, w);
    else if(t == "self") go<Self>(e, w);
    else if(t == "amp") go<Amp>(e, w);
    else go<Category>(e, w);
}
