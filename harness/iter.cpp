// Two iterators over one sequence (spec/Iter).  Each -DVP_PART builds a group of iterator types; argument: the pair's name.
#include "track.hpp"
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <ranges>
#include <xme/container/array.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>
using namespace vp;

struct V { int v; bool operator==(const V&) const = default; };

// ---- sequences: iterators are placed by means that do not use the code under test
template<typename C> struct Seq {
    using it = decltype(std::declval<C&>().begin()); using cit = decltype(std::declval<const C&>().begin());
    C c; std::vector<it> at; std::vector<const V*> elem;
    explicit Seq(int n) {
        for(int i = n; i-- > 0;) if constexpr(requires { c.push_front(V{}); }) c.push_front(V{i}); else c.insert(c.begin(), V{i});
        auto i = c.begin();
        for(int k = 0; k <= n; ++k) { at.push_back(i); if(k < n) { elem.push_back(std::addressof(*i)); ++i; } }
    }
    it pos(int p) { return at[p]; }
};
struct RawSeq {
    using it = V*; using cit = const V*;
    std::vector<V> c; std::vector<const V*> elem;
    explicit RawSeq(int n) { for(int i = 0; i < n; ++i) c.push_back({i}); for(auto& x : c) elem.push_back(&x); }
    it pos(int p) { return c.data() + p; }
};
template<typename T> struct Classic {                             // a random access iterator without <=>
    using difference_type = std::ptrdiff_t; using value_type = V; using reference = T&; using pointer = T*; using iterator_category = std::random_access_iterator_tag;
    T* p = nullptr;
    Classic() = default; Classic(T* q) : p(q) {}
    template<typename U> requires(std::is_const_v<T> && !std::is_const_v<U>) Classic(const Classic<U>& o) : p(o.p) {}
    T& operator*() const { return *p; } T* operator->() const { return p; } T& operator[](std::ptrdiff_t i) const { return p[i]; }
    Classic& operator++() { ++p; return *this; } Classic operator++(int) { return p++; } Classic& operator--() { --p; return *this; } Classic operator--(int) { return p--; }
    Classic& operator+=(std::ptrdiff_t k) { p += k; return *this; } Classic& operator-=(std::ptrdiff_t k) { p -= k; return *this; }
    friend Classic operator+(Classic a, std::ptrdiff_t k) { return a.p + k; } friend Classic operator+(std::ptrdiff_t k, Classic a) { return a.p + k; } friend Classic operator-(Classic a, std::ptrdiff_t k) { return a.p - k; }
    friend std::ptrdiff_t operator-(Classic a, Classic b) { return a.p - b.p; }
    friend bool operator==(Classic a, Classic b) { return a.p == b.p; } friend bool operator!=(Classic a, Classic b) { return a.p != b.p; }
    friend bool operator<(Classic a, Classic b) { return a.p < b.p; } friend bool operator>(Classic a, Classic b) { return a.p > b.p; } friend bool operator<=(Classic a, Classic b) { return a.p <= b.p; } friend bool operator>=(Classic a, Classic b) { return a.p >= b.p; }
};
struct ClassicSeq {
    using it = Classic<V>; using cit = Classic<const V>;
    std::vector<V> c; std::vector<const V*> elem;
    explicit ClassicSeq(int n) { for(int i = 0; i < n; ++i) c.push_back({i}); for(auto& x : c) elem.push_back(&x); }
    it pos(int p) { return c.data() + p; }
};
template<> struct Seq<xme::Array<V>> {
    using C = xme::Array<V>; using it = C::iterator; using cit = C::const_iterator;
    C c; V* base = nullptr; std::vector<const V*> elem;
    explicit Seq(int n) { for(int i = 0; i < n; ++i) c.push_back(V{i}); if(n) base = std::addressof(*c.begin()); for(int i = 0; i < n; ++i) elem.push_back(base + i); }
    it pos(int p) { return it(base + p); }
};
template<> struct Seq<xme::LinkedList<V>> {
    using C = xme::LinkedList<V>; using it = C::iterator; using cit = C::const_iterator;
    C c; std::vector<it> at; std::vector<const V*> elem;
    explicit Seq(int n) {
        for(int i = n; i-- > 0;) c.push_front(V{i});
        auto i = c.begin();
        for(int k = 0; k < n; ++k) { at.push_back(i); elem.push_back(std::addressof(*i)); i = it(i.current_node->next); }
        at.push_back(it(nullptr));
    }
    it pos(int p) { return at[p]; }
};

template<typename Z, bool rev, typename S> struct Maker {         // Z at its position p
    S& s; int n;
    Z operator()(int p) const {
        if constexpr(std::is_constructible_v<Z, typename S::it>) return Z(s.pos(rev ? n - p : p));
        else return Z(Inner<Z>(s.pos(rev ? n - p : p)));
    }
    template<typename> struct In;
    template<template<typename> class O, typename I> struct In<O<I>> { using type = I; };
    template<typename Q> using Inner = typename In<Q>::type;
};
template<template<typename> class O, typename Z> struct inner { };

static std::string num(long i) { return std::to_string(i); }
template<typename Z, typename M, typename S> static std::string where(const Z& z, const M& mk, S& s, int n, bool rev) {
    std::string r; int found = -1, count = 0;
    for(int p = 0; p <= n; ++p) {
        const Z o = mk(p);
        const bool e = z == o;
        if(e != (o == z) || e != !(z != o)) return "inconsistent equality";
        if(e) { r += (count++ ? "," : "") + num(p); found = p; }
    }
    if(count == 1 && found < n && std::addressof(*z) != s.elem[rev ? n - 1 - found : found]) return r + " but denotes another element";
    return count ? r : "nowhere";
}
template<typename Z> static void constant() {                     // exposes nothing for change
    static_assert(!std::indirectly_writable<Z, V>);
    static_assert(!requires(Z z, V v) { *z = v; });
    static_assert(!requires(Z z) { z->v = 1; });
    static_assert(!requires(Z z, V v) { z[0] = v; });
    static_assert(!std::is_convertible_v<Z, V*> && std::is_same_v<std::remove_reference_t<decltype(*std::declval<Z>())>, const V>);
}
#define TRY(...) if constexpr(requires { __VA_ARGS__; })
template<typename A, typename B> static std::string relations(const A& a, const B& b, bool ordered) {
    std::string r;
    TRY(a == b) { if((a == b) != (b == a)) return "asymmetric"; r += (a == b) ? "1" : "0"; } else r += "?";
    TRY(a != b) { if((a != b) != (b != a)) return "asymmetric"; r += (a != b) ? "1" : "0"; } else r += "?";
    if(!ordered) return r;
    TRY(a < b) r += (a < b) ? "1" : "0"; else r += "?";
    TRY(a > b) r += (a > b) ? "1" : "0"; else r += "?";
    TRY(a <= b) r += (a <= b) ? "1" : "0"; else r += "?";
    TRY(a >= b) r += (a >= b) ? "1" : "0"; else r += "?";
    return r;
}
template<typename S, typename X, bool rx, typename Y, bool ry> struct Drive {
    int cat; bool ordered;
    template<typename A, typename B, typename MA, typename MB>
    std::string on(const std::string& op, A& a, B& b, const MA& ma, const MB& mb, S& s, int n, long k, bool ra, bool rb) {
        auto at = [&](const A& z) { return where(z, ma, s, n, ra); };
        auto atb = [&](const B& z) { return where(z, mb, s, n, rb); };
        using D = std::iter_difference_t<A>; const D d = D(k);
        if(op == "++i") { A& r = ++a; return &r == &a ? at(a) : "copy"; }
        if(op == "i++") { A r = a++; return at(r); }
        if(op == "--i") { TRY(--a) { A& r = --a; return &r == &a ? at(a) : "copy"; } return "n/a"; }
        if(op == "i--") { TRY(a--) { A r = a--; return at(r); } return "n/a"; }
        if(op == "i+=k") { TRY(a += d) { A& r = a += d; return &r == &a ? at(a) : "copy"; } return "n/a"; }
        if(op == "i-=k") { TRY(a -= d) { A& r = a -= d; return &r == &a ? at(a) : "copy"; } return "n/a"; }
        if(op == "i+k") { TRY(std::as_const(a) + d) return at(std::as_const(a) + d); return "n/a"; }
        if(op == "k+i") { TRY(d + std::as_const(a)) return at(d + std::as_const(a)); return "n/a"; }
        if(op == "i-k") { TRY(std::as_const(a) - d) return at(std::as_const(a) - d); return "n/a"; }
        if(op == "i[k]") { if constexpr(std::random_access_iterator<A>) return num(std::as_const(a)[d].v); else return "n/a"; }
        if(op == "*i") return num((*std::as_const(a)).v);
        if(op == "i->") { if constexpr(std::is_pointer_v<A> || requires { a.operator->(); }) return num(std::as_const(a)->v); else return "n/a"; }
        if(op == "*i=") { TRY(*a = V{1}) { *std::as_const(a) = V{int(k)}; return "ok"; } return "n/a"; }
        if(op == "i->=") { TRY(a->v = 1) { std::as_const(a)->v = int(k); return "ok"; } return "n/a"; }
        if(op == "first") { a = ma(0); return at(a); }
        if(op == "last") { a = ma(n); return at(a); }
        if(op == "make") { if constexpr(std::is_constructible_v<B, const A&>) { B t(std::as_const(a)); b = t; return atb(b); } else return "n/a"; }
        if(op == "assign") { if constexpr(std::is_convertible_v<const A&, B>) { b = std::as_const(a); return atb(b); } else return "n/a"; }
        if(op == "copy") { A t(a); auto r = at(t); if(n) { if(r == num(n)) t = ma(0); else ++t; } return r == at(a) ? r : r + " then " + at(a); }
        if(op == "self") { A t(a); a = ma(0); a = std::move(t); return at(a); }
        if(op == "compare") return relations(std::as_const(a), std::as_const(b), ordered);
        if(op == "distance") { TRY(std::as_const(a) - std::as_const(b)) return num(long(std::as_const(a) - std::as_const(b))); return "n/a"; }
        if(op == "three-way") { TRY(std::as_const(a) <=> std::as_const(b)) { auto o = std::as_const(a) <=> std::as_const(b); return o < 0 ? "-1" : o > 0 ? "1" : "0"; } return "n/a"; }
        if(op == "walk") { std::string r; for(A i = ma(0), e = ma(n); i != e; ++i) r += " " + num((*i).v); return "[" + r + " ]"; }
        if(op == "walkback") { TRY(--a) { std::string r; for(A i = ma(n), e = ma(0); i != e;) { i--; r += " " + num((*i).v); } return "[" + r + " ]"; } return "n/a"; }
        return "?";
    }
    template<typename A> std::string write_at(A& a, long k, int v) {
        using D = std::iter_difference_t<A>; const D d = D(k);
        TRY(a[d] = V{v}) { std::as_const(a)[d] = V{v}; return "ok"; } return "n/a";
    }
    void run() {
        Script in;
        std::unique_ptr<S> s; std::unique_ptr<Maker<X, rx, S>> mx; std::unique_ptr<Maker<Y, ry, S>> my; std::optional<X> x; std::optional<Y> y; int n = 0;
        while(in.next()) {
            if(in.op() == "end") break;
            if(in.op() == "reset") { std::puts("ok"); continue; }
            if(in.op() == "seq") {
                n = int(in.num(1)); x.reset(); y.reset();
                s = std::make_unique<S>(n); mx.reset(new Maker<X, rx, S>{*s, n}); my.reset(new Maker<Y, ry, S>{*s, n});
                x.emplace((*mx)(0)); y.emplace((*my)(0)); std::puts("ok"); continue;
            }
            const std::string op = in.op(); const bool isx = in.tok[1] == "x"; const long k = in.num(2);
            std::string r;
            if(op == "i[k]=") r = isx ? write_at(*x, k, int(in.num(3))) : write_at(*y, k, int(in.num(3)));
            else r = isx ? on(op, *x, *y, *mx, *my, *s, n, k, rx, ry) : on(op, *y, *x, *my, *mx, *s, n, k, ry, rx);
            std::puts(r.c_str());
        }
        std::puts("bye");
    }
};
template<typename It> using Revr = xme::ReverseIterator<It>;
#ifndef VP_MODULE                                // the modules do not offer ConstIterator
template<typename It> using Con = xme::ConstIterator<It>;

template<typename S> static bool constants(const std::string& n, const char* who) {
    using I = typename S::it; using K = typename S::cit;
    const std::string w = who;
    constant<Con<I>>(); constant<Con<K>>();
    static_assert(std::forward_iterator<Con<I>> && !std::is_convertible_v<Con<I>, I> && std::is_default_constructible_v<Con<I>>);
    static_assert(std::bidirectional_iterator<I> == std::bidirectional_iterator<Con<I>> && std::random_access_iterator<I> == std::random_access_iterator<Con<I>>);
    static_assert(std::sentinel_for<I, Con<I>> && std::sentinel_for<Con<I>, I>);
    static_assert(std::is_same_v<decltype(xme::make_const_iterator(std::declval<I>())), Con<I>> && std::is_same_v<decltype(xme::make_const_iterator(std::declval<K>())), K>);
    if(n == "const " + w) return Drive<S, Con<I>, false, Con<I>, false>{1, std::random_access_iterator<I>}.run(), true;
    if(n == "const base " + w) return Drive<S, Con<I>, false, I, false>{1, std::random_access_iterator<I>}.run(), true;
    if(n == "const const " + w) return Drive<S, Con<I>, false, Con<K>, false>{1, std::random_access_iterator<I>}.run(), true;
    return false;
}
#endif
template<typename S> static bool reverses(const std::string& n, const char* who) {
    using I = typename S::it; using K = typename S::cit;
    const std::string w = who; constexpr bool o = std::random_access_iterator<I>;
    constant<Revr<K>>();
#ifndef VP_MODULE
    constant<Revr<Con<I>>>(); constant<Con<Revr<I>>>();
    static_assert(!std::is_convertible_v<Revr<Con<I>>, Revr<I>>);
    if(n == "reverse adapted " + w) return Drive<S, Revr<I>, true, Revr<Con<I>>, true>{2, o}.run(), true;
    if(n == "const reverse " + w) return Drive<S, Con<Revr<I>>, true, Revr<I>, true>{2, o}.run(), true;
#endif
    static_assert(std::bidirectional_iterator<Revr<I>> && o == std::random_access_iterator<Revr<I>> && !std::contiguous_iterator<Revr<I>>);
    static_assert(!std::is_convertible_v<Revr<K>, Revr<I>>);
    if(n == "reverse " + w) return Drive<S, Revr<I>, true, Revr<I>, true>{2, o}.run(), true;
    if(n == "reverse base " + w) return Drive<S, Revr<I>, true, I, false>{2, o}.run(), true;
    if(n == "reverse const " + w) return Drive<S, Revr<I>, true, Revr<K>, true>{2, o}.run(), true;
    return false;
}
template<typename S> static bool plain(const std::string& n, const char* who, bool o) {
    using I = typename S::it; using K = typename S::cit; const std::string w = who;
    constant<K>();
    static_assert(!std::is_convertible_v<K, I> && std::forward_iterator<I> && std::forward_iterator<K>);
    if(n == w) return Drive<S, I, false, I, false>{3, o}.run(), true;
    if(n == w + " const") return Drive<S, I, false, K, false>{3, o}.run(), true;
    if(n == "const " + w + " const") return Drive<S, K, false, K, false>{3, o}.run(), true;
    return false;
}
#if VP_PART == 5
// iterators that cannot be stepped twice or whose reference is no reference: only walks
template<typename F> static void walks(F f) {
    Script in; int n = 0;
    while(in.next()) {
        if(in.op() == "end") break;
        if(in.op() == "reset") { std::puts("ok"); continue; }
        if(in.op() == "seq") { n = int(in.num(1)); std::puts("ok"); continue; }
        std::string r = "["; f(n, in.op() == "walkback", [&](int v) { r += " " + num(v); });
        std::puts((r + " ]").c_str());
    }
    std::puts("bye");
}
#endif
int main(int, char** argv) {
    const std::string n = argv[1];
#if VP_PART == 0
    plain<Seq<xme::Array<V>>>(n, "Array", true) || plain<Seq<xme::LinkedList<V>>>(n, "LinkedList", false);
#elif VP_PART == 1
    constants<RawSeq>(n, "pointer") || constants<ClassicSeq>(n, "classic") || constants<Seq<std::vector<V>>>(n, "vector") || constants<Seq<std::deque<V>>>(n, "deque");
#elif VP_PART == 2
    constants<Seq<std::list<V>>>(n, "list") || constants<Seq<std::forward_list<V>>>(n, "forward_list") || constants<Seq<xme::Array<V>>>(n, "Array") || constants<Seq<xme::LinkedList<V>>>(n, "LinkedList");
#elif VP_PART == 3
    reverses<RawSeq>(n, "pointer") || reverses<Seq<std::vector<V>>>(n, "vector");
#elif VP_PART == 4
    reverses<Seq<std::deque<V>>>(n, "deque") || reverses<Seq<std::list<V>>>(n, "list") || reverses<Seq<xme::Array<V>>>(n, "Array");
#elif VP_PART == 5
    std::vector<int> v; for(int i = 0; i < 300; ++i) v.push_back(i);
    if(n == "single-pass") {
        using In = InputIt<int, false>; static_assert(std::input_iterator<Con<In>> && !std::forward_iterator<Con<In>>);
        walks([&](int m, bool, auto out) { std::vector<int> u(v.begin(), v.begin() + m); typename In::Src src{&u}; for(Con<In> i{In{&src}}; i != typename In::Sent{}; ++i) out(*i); });
    } else if(n == "computed") {
        walks([&](int m, bool back, auto out) {
            std::vector<int> u(v.begin(), v.begin() + m); auto t = u | std::views::transform([](int x) { return x + 0; });
            using I = decltype(t.begin());
            if(back) for(Revr<I> i(t.end()), e(t.begin()); i != e; ++i) out(*i); else for(Con<I> i(t.begin()), e(t.end()); i != e; ++i) out(*i); });
    } else if(n == "vector<bool>") {
        walks([&](int m, bool back, auto out) {
            std::vector<bool> u(m); for(int i = 0; i < m; i += 2) u[i] = true;
            using I = std::vector<bool>::iterator; static_assert(std::is_same_v<decltype(*std::declval<Con<I>>()), bool>);
            int k = 0; if(back) for(Revr<I> i(u.end()), e(u.begin()); i != e; ++i, ++k) out(*i == ((m - 1 - k) % 2 == 0) ? m - 1 - k : -1); else for(Con<I> i(u.begin()), e(u.end()); i != e; ++i, ++k) out(*i == (k % 2 == 0) ? k : -1); });
    }
#endif
}
