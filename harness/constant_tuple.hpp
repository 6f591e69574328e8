#pragma once
#include "constant.hpp"
#include <compare>
#include <functional>
#include <xme/container/pair.hpp>
#include <xme/container/tuple.hpp>
#include <xme/core/functional/bind.hpp>
namespace vp {
// a component: a value in memory of its own (Heap) or not; 0 once moved from
template<int Tag, bool Copy, bool Heap> struct Cell {
    int* p;
    int v;
    constexpr Cell(int x = 0) : p(Heap ? new int(x) : nullptr), v(x) {}
    constexpr Cell(const Cell& o) requires(Copy) : Cell(rd(o)) {}
    constexpr Cell(Cell&& o) noexcept : Cell(rd(o)) { o.set(0); }
    constexpr Cell& operator=(const Cell& o) requires(Copy) { set(rd(o)); return *this; }
    constexpr Cell& operator=(Cell&& o) noexcept { if(this != &o) { set(rd(o)); o.set(0); } return *this; }
    constexpr ~Cell() { if(Heap) delete p; }
    constexpr void set(int x) { if(Heap) *p = x; v = x; }
    friend constexpr int rd(const Cell& c) { return Heap && *c.p != c.v ? -9 : c.v; }
    friend constexpr bool operator==(const Cell& a, const Cell& b) { return rd(a) == rd(b); }
    friend constexpr auto operator<=>(const Cell& a, const Cell& b) { return rd(a) <=> rd(b); }
    template<typename... A> constexpr int look(const A&... a) const { int r = rd(*this); ((r = r * 20 + rd(a)), ...); return r; }
};
using A0 = Cell<0, true, false>; using A1 = Cell<1, true, true>; using M0 = Cell<2, false, true>; using M1 = Cell<3, false, false>;
using Ints = std::vector<int>;
template<typename X> struct is_pair : std::false_type {};
template<typename X, typename Y> struct is_pair<xme::Pair<X, Y>> : std::true_type {};
template<typename... X> struct Agg;
template<typename A> struct Agg<A> { A a; static constexpr Ints dump(const Agg& x) { return {rd(x.a)}; } };
template<typename A, typename B> struct Agg<A, B> { A a; B b; static constexpr Ints dump(const Agg& x) { return {rd(x.a), rd(x.b)}; } };
template<typename A, typename B, typename C> struct Agg<A, B, C> { A a; B b; C c; static constexpr Ints dump(const Agg& x) { return {rd(x.a), rd(x.b), rd(x.c)}; } };
template<typename T> struct Tuples {
    static constexpr std::size_t K = std::tuple_size_v<T>;
    using Seq = std::make_index_sequence<K>;
    template<std::size_t I> using C = std::tuple_element_t<I, T>;
    template<std::size_t I> using IC = std::integral_constant<std::size_t, I>;
    static constexpr bool copy = copyable<C<0>>, pair = is_pair<T>::value;
    template<typename S> struct Of;
    template<std::size_t... I> struct Of<std::index_sequence<I...>> {
        using Std = std::conditional_t<K == 2 && pair, std::pair<C<0>, C<K - 1>>, std::tuple<C<I>...>>;
        static constexpr auto f() { if constexpr(pair) return std::type_identity<xme::Tuple<C<I>...>>{}; else if constexpr(K == 2) return std::type_identity<xme::Pair<C<0>, C<K - 1>>>{}; else return std::type_identity<Std>{}; }
        using Other = typename decltype(f())::type;
        using Ag = Agg<C<I>...>;
        using Refs = xme::Tuple<C<I>&...>;
    };
    using Std = typename Of<Seq>::Std; using Other = typename Of<Seq>::Other;
    template<typename F> static constexpr auto all(F f) { return [&]<std::size_t... I>(std::index_sequence<I...>) { return f(IC<I>{}...); }(Seq{}); }
    template<typename F> static constexpr void nth(int k, F f) { [&]<std::size_t... I>(std::index_sequence<I...>) { (void)((int(I) == k ? (f(IC<I>{}), true) : false) || ...); }(Seq{}); }
    template<typename X> static constexpr Ints dump(const X& t) { return [&]<std::size_t... I>(std::index_sequence<I...>) { return Ints{rd(get<I>(t))...}; }(std::make_index_sequence<std::tuple_size_v<X>>{}); }
    template<std::size_t I> static constexpr auto& bound(T& t) {
        if constexpr(K == 1) { auto& [a] = t; return a; }
        else if constexpr(K == 2) { auto& [a, b] = t; if constexpr(I == 0) return a; else return b; }
        else { auto& [a, b, c] = t; if constexpr(I == 0) return a; else if constexpr(I == 1) return b; else return c; }
    }
    template<std::size_t I> static constexpr C<I> rbound(T&& t) {
        if constexpr(K == 1) { auto&& [a] = std::move(t); return std::move(a); }
        else if constexpr(K == 2) { auto&& [a, b] = std::move(t); if constexpr(I == 0) return std::move(a); else return std::move(b); }
        else { auto&& [a, b, c] = std::move(t); if constexpr(I == 0) return std::move(a); else if constexpr(I == 1) return std::move(b); else return std::move(c); }
    }
    template<std::size_t I> static constexpr C<I>& member(T& t) { if constexpr(pair) { if constexpr(I == 0) return t.first; else return t.second; } else return get<I>(t); }
    T a{}, b{};
    bool good = true;
    constexpr Ints step(int op, std::span<const int> x) {
        Ints r;
        const bool cv = true;
        auto read = [&](int h) {
            nth(x[0] - 1, [&](auto i) {
                constexpr auto I = i();
                const auto* p = &get<I>(a);
                const C<I>* q = h == 0 ? &get<I>(a) : h == 1 ? &get<I>(std::as_const(a)) : h == 2 ? &a[i] : h == 3 ? &std::as_const(a)[i] : h == 4 ? &bound<I>(a) : h == 5 ? &member<I>(a) : nullptr;
                if(h == 6) { auto&& y = get<I>(std::move(a)); q = &y; }
                if(h == 7) { auto&& y = get<I>(std::move(std::as_const(a))); q = &y; }
                if(q != p) good = false;
                r = {rd(*q)};
            });
            return r;
        };
        auto write = [&](int h) {
            nth(x[0] - 1, [&](auto i) {
                constexpr auto I = i();
                C<I> v(x[1]);
                if(h == 0) get<I>(a) = std::move(v); else if(h == 1) a[i] = std::move(v); else if(h == 2) bound<I>(a) = std::move(v); else if(h == 3) member<I>(a) = std::move(v);
                else all([&](auto... j) { auto t = xme::tie(get<j()>(a)...); get<I>(t) = std::move(v); return 0; });
            });
            return r;
        };
        auto take = [&](int h) {
            nth(x[0] - 1, [&](auto i) {
                constexpr auto I = i();
                if(h == 0) { C<I> y = std::move(get<I>(a)); r = {rd(y)}; } else if(h == 1) { C<I> y = get<I>(std::move(a)); r = {rd(y)}; }
                else if(h == 2) { C<I> y = std::move(a)[i]; r = {rd(y)}; } else { C<I> y = rbound<I>(std::move(a)); r = {rd(y)}; }
            });
            return r;
        };
        auto zero = [&](const auto& o) { for(int v : dump(o)) if(v) good = false; };
        switch(op) {
        case H("read get"): return read(0); case H("read cget"): return read(1); case H("read idx"): return read(2); case H("read cidx"): return read(3);
        case H("read sb"): return read(4); case H("read member"): return read(5); case H("read rget"): return read(6); case H("read crget"): return read(7);
        case H("write get"): return write(0); case H("write idx"): return write(1); case H("write sb"): return write(2); case H("write member"): return write(3); case H("write tie"): return write(4);
        case H("take get"): return take(0); case H("take rget"): return take(1); case H("take ridx"): return take(2); case H("take sb"): return take(3);
        case H("swap member"): a.swap(b); return r;
        case H("swap free"): { using xme::swap; swap(a, b); return r; }
        case H("swap ranges"): std::ranges::swap(a, b); return r;
        case H("massign move"): a = std::move(b); return r;
        case H("massign std"): { Std o{all([&](auto... i) { return Std{std::move(get<i()>(b))...}; })}; a = std::move(o); zero(o); return r; }
        case H("massign other"): { Other o{all([&](auto... i) { return Other{std::move(get<i()>(b))...}; })}; a = std::move(o); zero(o); return r; }
        case H("cmp value"): case H("cmp const"): { const T &p = a, &q = b; auto c = p <=> q; return {p == q, p != q, p < q, p <= q, p > q, p >= q, c < 0 ? -1 : c > 0 ? 1 : 0}; }
        case H("apply move"): xme::apply([&](auto&&... y) { (r.push_back([](auto z) { return rd(z); }(std::forward<decltype(y)>(y))), ...); }, std::move(a)); return r;
        case H("apply ref"): { int z = 0; int& m = xme::apply([&](auto&... y) -> int& { all([&](auto... i) { if(((&y != &get<i()>(a)) || ...)) good = false; return 0; }); (r.push_back(rd(y)), ...); return z; }, a); if(&m != &z) good = false; return r; }
        case H("apply const"): xme::apply([&](const auto&... y) { (r.push_back(rd(y)), ...); }, std::as_const(a)); return r;
        case H("new make"): case H("new ctad"): case H("new aggregate"):
            all([&](auto... i) {
                std::tuple<C<i()>...> v{C<i()>(x[i()])...};
                using std::get;
                if(op == H("new aggregate")) a = T{std::move(get<i()>(v))...};
                else if constexpr(pair) { if(op == H("new make")) a = xme::make_pair(std::move(get<i()>(v))...); else a = xme::Pair{std::move(get<i()>(v))...}; }
                else { if(op == H("new make")) a = xme::make_tuple(std::move(get<i()>(v))...); else a = xme::Tuple{std::move(get<i()>(v))...}; }
                return 0;
            });
            return r;
        case H("conv move"): { T c(std::move(a)); return dump(c); }
        case H("fwd forward"): {
            auto t = all([&](auto... i) { return xme::forward_as_tuple(std::move(get<i()>(a))...); });
            all([&](auto... i) { if(((&get<i()>(a) != &get<i()>(t)) || ...)) good = false; (r.push_back([](auto y) { return rd(y); }(C<i()>(get<i()>(std::move(t))))), ...); return 0; });
            return r;
        }
        case H("cat A B"): return dump(xme::tuple_cat(std::move(a), std::move(b)));
        case H("cat A"): return dump(xme::tuple_cat(std::move(a)));
        case H("cat none"): { auto t = xme::tuple_cat(); (void)t; return r; }
        case H("cat e A e B"): { const xme::Tuple<> e1{}; return dump(xme::tuple_cat(e1, std::move(a), xme::Tuple<>{}, std::move(b))); }
        case H("cat stdB A"): { auto o = all([&](auto... i) { return std::tuple<C<i()>...>(std::move(get<i()>(b))...); }); return dump(xme::tuple_cat(std::move(o), std::move(a))); }
        }
        if constexpr(copy) switch(op) {
        case H("cat a b"): return dump(xme::tuple_cat(a, std::as_const(b)));
        case H("cat A b"): return dump(xme::tuple_cat(std::move(a), b));
        case H("cat a B"): return dump(xme::tuple_cat(a, std::move(b)));
        case H("cat b a"): return dump(xme::tuple_cat(b, a));
        case H("cat c b a"): return dump(xme::tuple_cat(std::as_const(a), b, a));
        case H("cat a"): return dump(xme::tuple_cat(a));
        case H("cat a tieb"): { auto t = all([&](auto... i) { return xme::tie(get<i()>(b)...); }); return dump(xme::tuple_cat(a, t)); }
        case H("assign copy"): a = b; return r;
        case H("assign const"): a = std::as_const(b); return r;
        case H("assign std"): { Std o{all([&](auto... i) { return Std{get<i()>(b)...}; })}; a = o; if(dump(o) != dump(b)) good = false; return r; }
        case H("assign other"): { const Other o{all([&](auto... i) { return Other{get<i()>(b)...}; })}; a = o; if(dump(o) != dump(b)) good = false; return r; }
        case H("self copy"): { auto& y = a; a = y; return r; }
        case H("conv copy"): { T c(a); if(!(c == a)) good = false; return dump(c); }
        case H("conv std"): if constexpr(pair) return dump(a); else { Std y = std::as_const(a); return dump(y); }
        case H("conv aggregate"): if constexpr(pair) return dump(a); else { typename Of<Seq>::Ag y = a; return Of<Seq>::Ag::dump(y); }
        case H("tie tie"): all([&](auto... i) { std::tuple<C<i()>...> y; xme::tie(std::get<i()>(y)...) = std::as_const(a); r = dump(y); return 0; }); return r;
        case H("tie stdtie"): all([&](auto... i) { std::tuple<C<i()>...> y; auto t = xme::tie(std::get<i()>(y)...); t = a; r = dump(y); return 0; }); return r;
        }
        return {-77, cv};
    }
};
// each step: operation, arguments, result, both tuples
template<typename T> constexpr int tuples(const int* p, const int* e) {
    Tuples<T> t;
    Reader r{p, e};
    auto is = [](const Ints& v, std::span<const int> w) { if(v.size() != w.size()) return false; for(std::size_t i = 0; i < w.size(); ++i) if(v[i] != w[i]) return false; return true; };
    for(int i = 0; r; ++i) {
        const int op = r.get(); const auto x = r.list();
        const Ints got = t.step(op, x);
        const auto want = r.list(), a = r.list(), b = r.list();
        if(!t.good || !is(got, want) || !is(t.dump(t.a), a) || !is(t.dump(t.b), b)) return i;
    }
    return -1;
}
// ---- bound calls: K values, front or back
struct Seen { int n = 0; int v[8]{}; char c[8]{}; };
template<bool Copy> struct Bound_ : Cell<5, Copy, true> { using Cell<5, Copy, true>::Cell; };
template<typename F> struct Target {                        // counts its calls modulo 2 and changes what it may change
    int n = 0, d = 2; Seen* seen = nullptr; int* pad = new int(7);
    constexpr Target(int d_, Seen* s) : d(d_), seen(s) {}
    constexpr Target(const Target& o) : n(o.n), d(o.d), seen(o.seen) {}
    constexpr Target(Target&& o) noexcept : n(o.n), d(o.d), seen(o.seen) {}
    constexpr Target& operator=(const Target& o) { n = o.n; return *this; }
    constexpr ~Target() { delete pad; }
    template<typename A> constexpr void take(A&& a) const {
        using R = std::remove_reference_t<A>;
        if constexpr(requires { a.get(); }) take(a.get());
        else {
            seen->v[seen->n] = rd(a);
            seen->c[seen->n++] = std::is_lvalue_reference_v<A> ? (std::is_const_v<R> ? 'c' : 'l') : (std::is_const_v<R> ? 'k' : 'r');
            if constexpr(!std::is_const_v<R>) { if constexpr(std::is_lvalue_reference_v<A>) a.set(rd(a) >= 10 ? rd(a) + 1 : rd(a) >= d ? 1 : rd(a) + 1); else { R t(std::move(a)); } }
        }
    }
    template<typename... A> constexpr int hit(int c, A&&... a) const { (take(std::forward<A>(a)), ...); return c * 10 + n + (*pad - 7); }
    template<typename... A> constexpr int operator()(A&&... a) & { n = 1 - n; return hit('l', std::forward<A>(a)...); }
    template<typename... A> constexpr int operator()(A&&... a) const& { return hit('c', std::forward<A>(a)...); }
    template<typename... A> constexpr int operator()(A&&... a) && { n = 1 - n; return hit('r', std::forward<A>(a)...); }
    template<typename... A> constexpr int operator()(A&&... a) const&& { return hit('k', std::forward<A>(a)...); }
};
template<int K, bool Front, bool Copy> struct Bounds {
    using C = Cell<5, Copy, true>;
    using Seq = std::make_index_sequence<std::size_t(K)>;
    Seen seen{};
    int d;
    template<std::size_t... I> static constexpr auto bind(Target<C> t, C* s, std::index_sequence<I...>) { if constexpr(Front) return xme::bind_front(std::move(t), std::move(s[I])...); else return xme::bind_back(std::move(t), std::move(s[I])...); }
    template<std::size_t... I> static constexpr auto bind_l(const Target<C>& t, C* s, std::index_sequence<I...>) { if constexpr(Front) return xme::bind_front(t, s[I]...); else return xme::bind_back(t, s[I]...); }
    template<std::size_t... I> static constexpr auto bind_c(const Target<C>& t, C* s, std::index_sequence<I...>) { if constexpr(Front) return xme::bind_front(t, std::as_const(s[I])...); else return xme::bind_back(t, std::as_const(s[I])...); }
    using Obj = decltype(bind(std::declval<Target<C>>(), nullptr, Seq{}));
    constexpr explicit Bounds(int d_) : d(d_) {}
    template<typename F> static constexpr bool with_args(int cs, F&& f) {
        C q[3] = {C(11), C(12), C(13)};
        auto& [u, v, w] = q;
        const char* shape = "";
        switch(cs) {
        case H("_"): f(); break;
        case H("_l"): shape = "l"; f(u); break; case H("_c"): shape = "c"; f(std::as_const(u)); break; case H("_r"): shape = "r"; f(std::move(u)); break; case H("_k"): shape = "k"; f(std::move(std::as_const(u))); break;
        case H("_lc"): shape = "lc"; f(u, std::as_const(v)); break; case H("_lr"): shape = "lr"; f(u, std::move(v)); break; case H("_rc"): shape = "rc"; f(std::move(u), std::as_const(v)); break; case H("_kl"): shape = "kl"; f(std::move(std::as_const(u)), v); break;
        case H("_rlc"): shape = "rlc"; f(std::move(u), v, std::as_const(w)); break;
        default: return false;
        }
        for(int i = 0; shape[i]; ++i) if(rd(q[i]) != (shape[i] == 'c' || shape[i] == 'k' ? 11 + i : shape[i] == 'l' ? 12 + i : 0)) return false;
        return true;
    }
    // expected: called as, count, then value and category of each argument
    constexpr bool call(Obj& f, int cat, int cs, std::span<const int> want) {
        seen.n = 0;
        int got = 0;
        const bool same = with_args(cs, [&](auto&&... v) {
            got = cat == 'l' ? f(std::forward<decltype(v)>(v)...) : cat == 'c' ? std::as_const(f)(std::forward<decltype(v)>(v)...) : cat == 'r' ? std::move(f)(std::forward<decltype(v)>(v)...) : std::move(std::as_const(f))(std::forward<decltype(v)>(v)...);
        });
        if(!same || got != want[0] * 10 + want[1] || std::size_t(seen.n) * 2 + 2 != want.size()) return false;
        const int m = seen.n - K;
        for(int i = 0; i < seen.n; ++i) {
            const bool bound = Front ? i < K : i >= m;
            const char c = bound && seen.c[i] == 'k' ? 'c' : seen.c[i];
            if(seen.v[i] != want[std::size_t(2 + 2 * i)] || c != want[std::size_t(3 + 2 * i)]) return false;
        }
        return true;
    }
};
template<int K, bool Front, bool Copy> constexpr int bounds(const int* p, const int* e) {
    Reader r{p, e};
    Bounds<K, Front, Copy> t(r.get());
    using B = Bounds<K, Front, Copy>; using C = typename B::C; using Obj = typename B::Obj; using Seq = typename B::Seq;
    auto fresh = [&] { C s[3] = {C(1), C(1), C(1)}; return B::bind(Target<C>(t.d, &t.seen), s, Seq{}); };
    Hold<Obj> a(fresh()), b(fresh());
    for(int i = 0; r; ++i) {
        const int op = r.get(); const auto x = r.list(), want = r.list();
        switch(op) {
        case H("bind r"): case H("bind l"): case H("bind c"): {
            C s[3] = {C(K > 0 ? x[0] : 0), C(K > 1 ? x[1] : 0), C(K > 2 ? x[2] : 0)};
            if(op == H("bind r")) a.make(B::bind(Target<C>(t.d, &t.seen), s, Seq{}));
            else if constexpr(Copy) { const Target<C> f(t.d, &t.seen); if(op == H("bind l")) a.make(B::bind_l(f, s, Seq{})); else a.make(B::bind_c(f, s, Seq{})); }
            for(int k = 0; k < K; ++k) { if(rd(s[k]) != want[std::size_t(k)]) return i; s[k].set(77); }
            break;
        }
        case H("call a"): if(!t.call(*a, x[0], x[1], want)) return i; break;
        case H("call b"): if(!t.call(*b, x[0], x[1], want)) return i; break;
        case H("copy ctor"): if constexpr(Copy) b.make(std::as_const(*a)); break;
        case H("copy assign"): if constexpr(Copy) *b = std::as_const(*a); break;
        case H("move ctor"): b.make(std::move(*a)); a.make(fresh()); break;
        case H("move assign"): *b = std::move(*a); a.make(fresh()); break;
        default: return i;
        }
    }
    return -1;
}
}
