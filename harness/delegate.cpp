// Drives xme::Delegate.  VP_SIG selects the signature.
// Targets of every kind report <<tag, number of calls, argument>>; the argument is -1 unless every parameter arrived unchanged.
#include "track.hpp"
#include <functional>
#include <optional>
#include <utility>
#include <xme/core/functional/delegate.hpp>
using namespace vp;

struct Box { std::unique_ptr<int> p; explicit Box(int x) : p(new int(x)) {} int read() const { return p ? *p : -1; } };
struct Obj {
    int v1 = 0, v2 = 0, x = 0;
    template<int T> int& mut(); template<int T> int look(int) const;
};
struct Seen { int tag = 0, n = 0, x = -2; int calls = 0; } seen;
static void report(int tag, int n, int x) { seen = {tag, n, x, seen.calls + 1}; }

// Each signature: hit() is the body of every target, call() calls a delegate and says what was seen
struct S1 {
    using R = long;
    using Sig = long(int, Box, int&, const std::string&, int&&);
    static long hit(int tag, int n, int a, Box b, int& c, const std::string& d, int&& e) {
        int x = a;
        if(b.read() != x + 1 || c != x + 2 || d != std::string(x + 3, 'q') || e != x + 4) x = -1;
        c = 77; e = 78; report(tag, n, x); return 5000000000L + tag;
    }
    template<typename D> static int call(D& d, int x) {
        int c = x + 2, e = x + 4; const std::string s(x + 3, 'q');
        long r = d(x, Box(x + 1), c, s, std::move(e));
        return r == 5000000000L + seen.tag && c == 77 && e == 78 ? seen.x : -1;
    }
    static constexpr int member = 0;
};
struct S2 {                                            // nothing returned, an object by reference
    using R = void;
    using Sig = void(Obj&, int);
    static Obj* last;
    static int hit(int tag, int n, Obj& o, int x) { last = &o; report(tag, n, o.x == x ? x : -1); return 3; }
    template<typename D> static int call(D& d, int x) { Obj o; o.x = x; last = nullptr; static_assert(std::is_void_v<decltype(d(o, x))>); d(o, x); return last == &o ? seen.x : -1; }
    static constexpr int member = 1;
};
Obj* S2::last;
struct S3 {                                            // a reference returned
    using R = int&;
    using Sig = int&(Obj&);
    static int& hit(int tag, int n, Obj& o) { report(tag, n, o.x); return tag == 1 ? o.v1 : o.v2; }
    template<typename D> static int call(D& d, int x) { Obj o; o.x = x; int& r = d(o); return &r == (seen.tag == 1 ? &o.v1 : &o.v2) ? seen.x : -1; }
    static constexpr int member = 2;
};
struct S4 {                                            // move-only values, by rvalue reference and returned
    using R = Box;
    using Sig = Box(Box&&, Box&);
    static Box* last;
    static Box hit(int tag, int n, Box&& b, Box& c) { last = &b; int x = b.read(); if(c.read() != x + 1) x = -1; report(tag, n, x); Box r(std::move(b)); *r.p += 10; return r; }
    template<typename D> static int call(D& d, int x) { Box b(x), c(x + 1); const int* p = b.p.get(); last = nullptr; Box r = d(std::move(b), c); return last == &b && r.p.get() == p && r.read() == x + 10 && !b.p ? seen.x : -1; }
    static constexpr int member = 0;
};
Box* S4::last;
struct S5 {                                            // an object by pointer
    using R = int;
    using Sig = int(const Obj*, int);
    static int hit(int tag, int n, const Obj* o, int x) { report(tag, n, o->x == x ? x : -1); return x + tag; }
    template<typename D> static int call(D& d, int x) { Obj o; o.x = x; return d(&o, x) == x + seen.tag ? seen.x : -1; }
    static constexpr int member = 3;
};
struct S6 {                                            // no parameters, result converted
    using R = double;
    using Sig = double();
    static int now;
    static int hit(int tag, int n) { report(tag, n, now); return 4 * tag + 1; }
    template<typename D> static int call(D& d, int x) { now = x; double r = d(); return r == 4 * seen.tag + 1 ? seen.x : -1; }
    static constexpr int member = 0;
};
int S6::now;
using S = VP_SIG;
using D = xme::Delegate<S::Sig>;
template<typename F> struct Args;
template<typename R, typename... A> struct Args<R(A...)> {
    template<int T> static R fn(A... a) { return R(S::hit(T, 0, std::forward<A>(a)...)); }
    using ptr = R (*)(A...);
};
using Fn = Args<S::Sig>;
template<int T> int& Obj::mut() { report(T, 0, x); return T == 1 ? v1 : v2; }
template<int T> int Obj::look(int y) const { S2::last = const_cast<Obj*>(this); report(T, 0, x == y ? y : -1); return y + T; }

// kinds of targets
struct Small { int tag; int n = 0; template<typename... A> decltype(auto) operator()(A&&... a) { return S::hit(tag, ++n, std::forward<A>(a)...); } };
struct Exact { long tag; long n = 0; template<typename... A> decltype(auto) operator()(A&&... a) { return S::hit(int(tag), int(++n), std::forward<A>(a)...); } };
struct Over { long tag; long n = 0; char c = 'c'; template<typename... A> decltype(auto) operator()(A&&... a) { ++n; return S::hit(c == 'c' ? int(tag) : -1, int(n), std::forward<A>(a)...); } };
struct Aware {                                          // small, but must not be moved bytewise
    const Aware* self; int tag; int n = 0;
    explicit Aware(int t) : self(this), tag(t) {}
    Aware(const Aware& o) : self(this), tag(o.self == &o ? o.tag : -1), n(o.n) {}
    ~Aware() { self = nullptr; tag = -2; }
    template<typename... A> decltype(auto) operator()(A&&... a) { ++n; return S::hit(self == this ? tag : -1, n, std::forward<A>(a)...); }
};
struct Large { std::string s; int tag; int n = 0; long pad[20] = {}; explicit Large(int t) : s(50, char('a' + t)), tag(t) {}
    template<typename... A> decltype(auto) operator()(A&&... a) { ++n; return S::hit(s == std::string(50, char('a' + tag)) ? tag : -1, n, std::forward<A>(a)...); } };
struct alignas(64) Aligned { int tag; int n = 0; template<typename... A> decltype(auto) operator()(A&&... a) { ++n; return S::hit(reinterpret_cast<std::uintptr_t>(this) % 64 == 0 ? tag : -1, n, std::forward<A>(a)...); } };
struct alignas(16) Sixteen { int tag; int n = 0; template<typename... A> decltype(auto) operator()(A&&... a) { ++n; return S::hit(reinterpret_cast<std::uintptr_t>(this) % 16 == 0 ? tag : -1, n, std::forward<A>(a)...); } };   // as big as the local storage
struct Nested { D d; template<typename... A> decltype(auto) operator()(A&&... a) { return d(std::forward<A>(a)...); } };
struct Byte { unsigned char tag : 4, n : 4; template<typename... A> decltype(auto) operator()(A&&... a) const { return S::hit(tag, ++const_cast<Byte*>(this)->n, std::forward<A>(a)...); } };
using Std = std::function<S::Sig>;
struct Other { int tag; int n; };                       // never a target

template<int K> struct Kind;
template<> struct Kind<1> { using T = Fn::ptr; template<int G> static T make() { return &Fn::fn<G>; } static int tag(const T& t) { return t == &Fn::fn<1> ? 1 : t == &Fn::fn<2> ? 2 : -1; } static int n(const T&) { return 0; } };
#define SIMPLE(k, type) template<> struct Kind<k> { using T = type; template<int G> static T make() { return T{G}; } static int tag(const T& t) { return int(t.tag); } static int n(const T& t) { return int(t.n); } };
SIMPLE(3, Small) SIMPLE(4, Exact) SIMPLE(5, Over) SIMPLE(6, Aware) SIMPLE(7, Large) SIMPLE(8, Aligned) SIMPLE(12, Sixteen)
template<> struct Kind<9> { using T = Std; template<int G> static T make() {
        // std::function needs a copyable callable with the signature; move-only parameters pass through
        return Std(Small{G}); } static int tag(const T& t) { auto* p = t.template target<Small>(); return p ? p->tag : -1; } static int n(const T& t) { return t.template target<Small>()->n; } };
template<> struct Kind<10> { using T = Nested; template<int G> static T make() { return Nested{D(Aware{G})}; } static int tag(const T& t) { auto* p = t.d.handle<Aware>(); return p && p->self == p ? p->tag : -1; } static int n(const T& t) { return t.d.handle<Aware>()->n; } };
template<> struct Kind<11> { using T = Byte; template<int G> static T make() { return Byte{G, 0}; } static int tag(const T& t) { return t.tag; } static int n(const T& t) { return t.n; } };
// kind 2: a pointer to a member if the signature allows it, else an empty-ish function object without state
template<> struct Kind<2> {
#if VP_MEMBER == 0
    struct T { int tag; template<typename... A> decltype(auto) operator()(A&&... a) const { return S::hit(tag, 0, std::forward<A>(a)...); } };
    template<int G> static T make() { return T{G}; }
    static int tag(const T& t) { return t.tag; }
#elif VP_MEMBER == 1
    using T = int (Obj::*)(int) const;
    template<int G> static T make() { return &Obj::look<G>; }
    static int tag(const T& t) { return t == &Obj::look<1> ? 1 : t == &Obj::look<2> ? 2 : -1; }
#elif VP_MEMBER == 2
    using T = int& (Obj::*)();
    template<int G> static T make() { return &Obj::mut<G>; }
    static int tag(const T& t) { return t == &Obj::mut<1> ? 1 : t == &Obj::mut<2> ? 2 : -1; }
#else
    using T = int (Obj::*)(int) const;
    template<int G> static T make() { return &Obj::look<G>; }
    static int tag(const T& t) { return t == &Obj::look<1> ? 1 : t == &Obj::look<2> ? 2 : -1; }
#endif
    static int n(const T&) { return 0; }
};
// kind 13 (signatures with an object only): a pointer to a data member
#if VP_MEMBER == 2
template<> struct Kind<13> { using T = int Obj::*; template<int G> static T make() { return G == 1 ? &Obj::v1 : &Obj::v2; } static int tag(const T& t) { return t == &Obj::v1 ? 1 : t == &Obj::v2 ? 2 : -1; } static int n(const T&) { return 0; } };
constexpr int KINDS = 13;
#else
constexpr int KINDS = 12;
#endif

static std::optional<D> slot[4];
template<typename F> static void kind(int k, F f) { [&]<int... I>(std::integer_sequence<int, I...>) { (void)((I + 1 == k ? (f(Kind<I + 1>{}), true) : false) || ...); }(std::make_integer_sequence<int, KINDS>{}); }

static std::string show(const D& d) {
    std::string s; int hits = 0;
    auto one = [&]<int K>(Kind<K>) {
        if(auto* p = d.handle<typename Kind<K>::T>()) { ++hits; s = std::to_string(K) + ":" + std::to_string(Kind<K>::tag(*p)) + ":" + std::to_string(Kind<K>::n(*p)); }
    };
    [&]<int... I>(std::integer_sequence<int, I...>) { (one(Kind<I + 1>{}), ...); }(std::make_integer_sequence<int, KINDS>{});
    if(d.handle<Other>() || d.handle<int>() || d.handle<D>()) ++hits;
    if(bool(d) != (hits == 1) || hits > 1) return "?" + std::to_string(hits);
    return hits ? s : "0";
}
int main(int argc, char**) {
    Script s;
    std::string buf;
    while(s.next()) {
        if(s.op() == "end") break;
        if(s.op() == "reset") { for(auto& x : slot) { x.reset(); x.emplace(); } std::puts("ok"); continue; }
        const std::string how = s.tok[1];
        int i = int(s.num(2)), j = s.tok.size() > 3 ? int(s.num(3)) : 0;
        std::string r = "[]";
        if(s.op() == "make") {
            auto put = [&](auto K, auto G) {
                auto t = K.template make<G()>();
                const auto& ct = t;
                if(how == "ctor") { slot[i].reset(); slot[i].emplace(std::move(t)); }
                else if(how == "ctorl") { slot[i].reset(); slot[i].emplace(t); }
                else if(how == "ctorc") { slot[i].reset(); slot[i].emplace(ct); }
                else if(how == "assign") *slot[i] = std::move(t);
                else *slot[i] = t;
            };
            kind(j, [&](auto K) { if(s.num(4) == 1) put(K, std::integral_constant<int, 1>{}); else put(K, std::integral_constant<int, 2>{}); });
        }
        else if(s.op() == "null") {
            if(how == "default") { slot[i].reset(); slot[i].emplace(); }
            else if(how == "nullfn") { slot[i].reset(); slot[i].emplace(Fn::ptr(nullptr)); }
            else if(how == "nullmember") {
                slot[i].reset();
#if VP_MEMBER
                slot[i].emplace(Kind<2>::T(nullptr));
#else
                slot[i].emplace();
#endif
            }
            else if(how == "assignnull") *slot[i] = nullptr;
            else *slot[i] = Fn::ptr(nullptr);
        }
        else if(s.op() == "copy") { if(how == "ctor") { slot[i].reset(); slot[i].emplace(std::as_const(*slot[j])); } else *slot[i] = std::as_const(*slot[j]); }
        else if(s.op() == "move") { if(how == "ctor") { slot[i].reset(); slot[i].emplace(std::move(*slot[j])); } else *slot[i] = std::move(*slot[j]); }
        else if(s.op() == "swap") { if(how == "member") slot[i]->swap(*slot[j]); else std::ranges::swap(*slot[i], *slot[j]); }
        else if(s.op() == "call") {
            int x = j;
            seen = {};
            try {
                int got = -5;
                if(auto* p = slot[i]->handle<int Obj::*>()) {            // a data member: nothing to report
                    seen.tag = *p == &Obj::v1 ? 1 : 2; seen.x = x; seen.calls = 1;
                }
                got = how == "ref" ? S::call(*slot[i], x) : S::call(std::as_const(*slot[i]), x);
                r = seen.calls == 1 ? "[" + std::to_string(seen.tag) + "," + std::to_string(seen.n) + "," + std::to_string(got) + "]" : "[called " + std::to_string(seen.calls) + " times]";
            } catch(const std::bad_function_call&) { r = seen.calls ? "[thrown after a call]" : "[-1]"; }
        }
        std::printf("%s", r.c_str());
        for(int k = 1; k <= 3; ++k) std::printf(" %s", show(*slot[k]).c_str());
        std::puts("");
        std::fflush(stdout);
    }
    for(auto& x : slot) x.reset();
    std::puts("bye");
}

// compile-time promises
static int plain(int x) { return x; }
static_assert(std::is_same_v<decltype(xme::Delegate(&plain)), xme::Delegate<int(int)>>);
struct CO { int operator()(long, char) const { return 1; } };
static_assert(std::is_same_v<decltype(xme::Delegate(CO{})), xme::Delegate<int(long, char)>>);
static_assert(std::is_nothrow_move_constructible_v<D> && std::is_nothrow_move_assignable_v<D>);
static_assert(!std::is_convertible_v<D, bool> && std::is_constructible_v<bool, D>);
