// Drives xme::Pair and xme::Tuple.  VP_TUPLE: the type under test; VP_K: its arity.
#include "track.hpp"
#include <compare>
#include <functional>
#include <optional>
#include <ranges>
#include <tuple>
#include <utility>
#include <xme/container/pair.hpp>
#include <xme/container/tuple.hpp>
using namespace vp;

// component types: a value, 0 once moved from
template<typename Rep, bool Copy, int Tag>
struct Cell {
    Rep v{};
    Cell() = default;
    Cell(int x) : v(conv(x)) {}
    Cell(const Cell& o) requires(Copy) = default;
    Cell(Cell&& o) noexcept : v(std::move(o.v)) { o.v = conv(0); }
    Cell& operator=(const Cell& o) requires(Copy) = default;
    Cell& operator=(Cell&& o) noexcept { if(&o != this) { v = std::move(o.v); o.v = conv(0); } return *this; }
    static Rep conv(int x) { if constexpr(std::is_same_v<Rep, std::string>) return x ? std::string(20, 'y') + char('0' + x) : std::string(); else return Rep(x); }
    int read() const { if constexpr(std::is_same_v<Rep, std::string>) return v.empty() ? 0 : v.size() == 21 && v.substr(0, 20) == std::string(20, 'y') ? v[20] - '0' : -9; else return int(v); }
    friend bool operator==(const Cell& a, const Cell& b) { return a.read() == b.read(); }
    friend auto operator<=>(const Cell& a, const Cell& b) { return a.read() <=> b.read(); }
};
struct Plain {                       // compared by its operators only; moving it changes it
    int v = 0;
    Plain() = default; Plain(int x) : v(x) {}
    Plain(const Plain&) = default; Plain(Plain&& o) noexcept : v(std::exchange(o.v, 0)) {}
    Plain& operator=(const Plain&) = default; Plain& operator=(Plain&& o) noexcept { if(&o != this) v = std::exchange(o.v, 0); return *this; }
    auto operator<=>(const Plain&) const = default;
    int read() const { return v; }
};
using A0 = Cell<int, true, 0>; using A1 = Cell<char, true, 1>; using A2 = Cell<std::string, true, 2>; using A3 = Cell<double, true, 3>;
using M0 = Cell<int, false, 0>; using M1 = Cell<std::string, false, 1>; using M2 = Cell<long, false, 2>; using M3 = Cell<short, false, 3>;
template<typename C> struct Nest {   // a component that is itself a pair and a tuple
    xme::Pair<C, xme::Tuple<C>> p;
    Nest() = default;
    Nest(int x) : p{C(x), xme::Tuple<C>{C(x)}} {}
    int read() const { return p.first.read() == get<0>(get<1>(p)).read() ? p.first.read() : -9; }
    friend bool operator==(const Nest&, const Nest&) = default;
    friend auto operator<=>(const Nest&, const Nest&) = default;
};

template<typename... X> struct Agg;
template<typename A> struct Agg<A> { A a; static std::vector<int> dump(const Agg& x) { return {x.a.read()}; } };
template<typename A, typename B> struct Agg<A, B> { A a; B b; static std::vector<int> dump(const Agg& x) { return {x.a.read(), x.b.read()}; } };
template<typename A, typename B, typename C> struct Agg<A, B, C> { A a; B b; C c; static std::vector<int> dump(const Agg& x) { return {x.a.read(), x.b.read(), x.c.read()}; } };
template<typename A, typename B, typename C, typename D> struct Agg<A, B, C, D> { A a; B b; C c; D d; static std::vector<int> dump(const Agg& x) { return {x.a.read(), x.b.read(), x.c.read(), x.d.read()}; } };
template<typename A, typename B, typename C, typename D, typename E> struct Agg<A, B, C, D, E> { A a; B b; C c; D d; E e; static std::vector<int> dump(const Agg& x) { return {x.a.read(), x.b.read(), x.c.read(), x.d.read(), x.e.read()}; } };
template<typename A, typename B, typename C, typename D, typename E, typename F> struct Agg<A, B, C, D, E, F> { A a; B b; C c; D d; E e; F f; static std::vector<int> dump(const Agg& x) { return {x.a.read(), x.b.read(), x.c.read(), x.d.read(), x.e.read(), x.f.read()}; } };
template<typename... X> struct Join;
template<typename... X, typename... Y, typename... R> struct Join<xme::Tuple<X...>, xme::Tuple<Y...>, R...> : Join<xme::Tuple<X..., Y...>, R...> {};
template<typename X> struct Join<X> { using type = X; };

template<typename X> struct is_pair : std::false_type {};
template<typename X, typename Y> struct is_pair<xme::Pair<X, Y>> : std::true_type {};

template<typename T, std::size_t K>
struct Test {
using Seq = std::make_index_sequence<K>;
template<std::size_t I> using C = std::tuple_element_t<I, T>;
template<std::size_t I> using IC = std::integral_constant<std::size_t, I>;
static constexpr bool copyable = std::is_copy_constructible_v<C<0>>;
static constexpr bool pair = is_pair<T>::value;
template<typename S> struct StdOf;
template<std::size_t... I> struct StdOf<std::index_sequence<I...>> { using type = std::conditional_t<K == 2 && pair, std::pair<C<0>, C<K - 1>>, std::tuple<C<I>...>>; };
using Std = StdOf<Seq>::type;
template<typename S> struct AggOf;
template<std::size_t... I> struct AggOf<std::index_sequence<I...>> { using type = Agg<C<I>...>; };
template<typename S> struct OtherOf;
template<std::size_t... I> struct OtherOf<std::index_sequence<I...>> {
    static auto f() { if constexpr(pair) return std::type_identity<xme::Tuple<C<I>...>>{}; else if constexpr(K == 2) return std::type_identity<xme::Pair<C<0>, C<K - 1>>>{}; else return std::type_identity<Std>{}; }
    using type = typename decltype(f())::type;
};
using Other = OtherOf<Seq>::type;
// every access path has the right type
template<std::size_t I> static constexpr bool types_ok =
    std::is_same_v<decltype(get<I>(std::declval<T&>())), C<I>&> && std::is_same_v<decltype(get<I>(std::declval<const T&>())), const C<I>&>
    && std::is_same_v<decltype(get<I>(std::declval<T&&>())), C<I>&&> && std::is_same_v<decltype(std::declval<T&>()[IC<I>{}]), C<I>&>
    && std::is_same_v<decltype(std::declval<const T&>()[IC<I>{}]), const C<I>&> && std::is_same_v<decltype(std::declval<T&&>()[IC<I>{}]), C<I>&&>;
static_assert(std::tuple_size_v<T> == K);

template<typename F> static void with(std::size_t k, F f) { [&]<std::size_t... I>(std::index_sequence<I...>) { (void)((I == k ? (f(IC<I>{}), true) : false) || ...); }(Seq{}); }
template<typename F> static auto all(F f) { return [&]<std::size_t... I>(std::index_sequence<I...>) { return f(IC<I>{}...); }(Seq{}); }

template<std::size_t I, typename X> static decltype(auto) bound(X& t) {      // component I through structured bindings
#if VP_K == 1
    auto& [a] = t; return (a);
#elif VP_K == 2
    auto& [a, b] = t; if constexpr(I == 0) return (a); else return (b);
#elif VP_K == 3
    auto& [a, b, c] = t; if constexpr(I == 0) return (a); else if constexpr(I == 1) return (b); else return (c);
#elif VP_K == 4
    auto& [a, b, c, d] = t; if constexpr(I == 0) return (a); else if constexpr(I == 1) return (b); else if constexpr(I == 2) return (c); else return (d);
#elif VP_K == 5
    auto& [a, b, c, d, e] = t; if constexpr(I == 0) return (a); else if constexpr(I == 1) return (b); else if constexpr(I == 2) return (c); else if constexpr(I == 3) return (d); else return (e);
#else
    auto& [a, b, c, d, e, f] = t; if constexpr(I == 0) return (a); else if constexpr(I == 1) return (b); else if constexpr(I == 2) return (c); else if constexpr(I == 3) return (d); else if constexpr(I == 4) return (e); else return (f);
#endif
}
template<std::size_t I> static C<I> rbound(T&& t) {
#if VP_K == 1
    auto&& [a] = std::move(t); return std::move(a);
#elif VP_K == 2
    auto&& [a, b] = std::move(t); if constexpr(I == 0) return std::move(a); else return std::move(b);
#elif VP_K == 3
    auto&& [a, b, c] = std::move(t); if constexpr(I == 0) return std::move(a); else if constexpr(I == 1) return std::move(b); else return std::move(c);
#elif VP_K == 4
    auto&& [a, b, c, d] = std::move(t); if constexpr(I == 0) return std::move(a); else if constexpr(I == 1) return std::move(b); else if constexpr(I == 2) return std::move(c); else return std::move(d);
#elif VP_K == 5
    auto&& [a, b, c, d, e] = std::move(t); if constexpr(I == 0) return std::move(a); else if constexpr(I == 1) return std::move(b); else if constexpr(I == 2) return std::move(c); else if constexpr(I == 3) return std::move(d); else return std::move(e);
#else
    auto&& [a, b, c, d, e, f] = std::move(t); if constexpr(I == 0) return std::move(a); else if constexpr(I == 1) return std::move(b); else if constexpr(I == 2) return std::move(c); else if constexpr(I == 3) return std::move(d); else if constexpr(I == 4) return std::move(e); else return std::move(f);
#endif
}
template<std::size_t I> static C<I>& member(T& t) { if constexpr(pair) { if constexpr(I == 0) return t.first; else return t.second; } else return get<I>(t); }

static std::string show(const std::vector<int>& v) { std::string s = "["; for(std::size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
template<typename X> static std::vector<int> dump(const X& t) { return [&]<std::size_t... I>(std::index_sequence<I...>) { return std::vector<int>{get<I>(t).read()...}; }(std::make_index_sequence<std::tuple_size_v<X>>{}); }
static std::vector<int> dump_members(const T& t) { if constexpr(pair) return {t.first.read(), t.second.read()}; else return dump(t); }
template<typename S> struct AsTuple;
template<std::size_t... I> struct AsTuple<std::index_sequence<I...>> { using type = xme::Tuple<C<I>...>; using refs = xme::Tuple<C<I>&...>; };
using AT = AsTuple<Seq>::type;
template<typename... X, typename R> static std::vector<int> cat(R&& r) { static_assert(std::is_same_v<R, typename Join<X...>::type>); return dump(r); }

static inline T a, b;
static inline bool bad;
static std::vector<int> step(const Script& s) {
    const auto& op = s.op();
    const std::string how = s.tok[1];
    std::vector<int> r;
    if(op == "read") {
        with(s.num(2) - 1, [&](auto i) {
            constexpr auto I = i();
            auto* p = &get<I>(a);
            const C<I>* q = how == "get" ? &get<I>(a) : how == "cget" ? &get<I>(std::as_const(a)) : how == "idx" ? &a[i] : how == "cidx" ? &std::as_const(a)[i]
                : how == "sb" ? &bound<I>(a) : how == "member" ? &member<I>(a) : nullptr;
            if(how == "rget") { auto&& x = get<I>(std::move(a)); q = &x; }
            if(how == "crget") { auto&& x = get<I>(std::move(std::as_const(a))); q = &x; }
            if(q != p) bad = true;
            r = {q->read()};
        });
        return r;
    }
    if(op == "write") {
        with(s.num(2) - 1, [&](auto i) {
            constexpr auto I = i();
            C<I> v(int(s.num(3)));
            if(how == "get") get<I>(a) = std::move(v);
            else if(how == "idx") a[i] = std::move(v);
            else if(how == "sb") bound<I>(a) = std::move(v);
            else if(how == "member") member<I>(a) = std::move(v);
            else all([&](auto... j) { auto t = xme::tie(get<j()>(a)...); get<I>(t) = std::move(v); return 0; });
        });
        return {};
    }
    if(op == "take") {
        with(s.num(2) - 1, [&](auto i) {
            constexpr auto I = i();
            if(how == "get") { C<I> x = std::move(get<I>(a)); r = {x.read()}; }
            else if(how == "rget") { C<I> x = get<I>(std::move(a)); r = {x.read()}; }
            else if(how == "ridx") { C<I> x = std::move(a)[i]; r = {x.read()}; }
            else { C<I> x = rbound<I>(std::move(a)); r = {x.read()}; }
        });
        return r;
    }
    if(op == "swap") {
        if(how == "member") a.swap(b); else if(how == "free") { using xme::swap; swap(a, b); } else std::ranges::swap(a, b);
        return {};
    }
    if(op == "massign") {
        if(how == "move") a = std::move(b);
        else if(how == "std") { Std o{all([&](auto... i) { return Std{std::move(get<i()>(b))...}; })}; a = std::move(o); if(dump(o) != std::vector<int>(K, 0)) bad = true; }
        else { Other o{all([&](auto... i) { return Other{std::move(get<i()>(b))...}; })}; a = std::move(o); if(dump(o) != std::vector<int>(K, 0)) bad = true; }
        return {};
    }
    if(op == "cmp") {
        const T &x = a, &y = b;
        auto c = x <=> y;
        return {x == y, x != y, x < y, x <= y, x > y, x >= y, c < 0 ? -1 : c > 0 ? 1 : 0};
    }
    if(op == "apply" && how == "move") { xme::apply([&](auto&&... x) { (r.push_back([](auto y) { return y.read(); }(std::forward<decltype(x)>(x))), ...); static_assert((!std::is_lvalue_reference_v<decltype(x)> && ...)); }, std::move(a)); return r; }
    if(op == "apply" && how == "ref") { int& m = xme::apply([&](auto&... x) -> int& { static int z; all([&](auto... i) { if(((&x != &get<i()>(a)) || ...)) bad = true; return 0; }); (r.push_back(x.read()), ...); return z; }, a); (void)m; return r; }
    if(op == "apply") { xme::apply([&](const auto&... x) { (r.push_back(x.read()), ...); }, std::as_const(a)); return r; }
    if(op == "new") {
        all([&](auto... i) {
            std::tuple<C<i()>...> v{C<i()>(int(s.num(2 + i())))...};
            using std::get;
            if(how == "aggregate") a = T{std::move(get<i()>(v))...};
            else if constexpr(pair) { if(how == "make") a = xme::make_pair(std::move(get<i()>(v))...); else a = xme::Pair{std::move(get<i()>(v))...}; }
            else { if(how == "make") a = xme::make_tuple(std::move(get<i()>(v))...); else a = xme::Tuple{std::move(get<i()>(v))...}; }
            return 0;
        });
        return {};
    }
    if(op == "conv" && how == "move") { T c(std::move(a)); return dump(c); }
    if(op == "fwd") {
        auto t = all([&](auto... i) { return xme::forward_as_tuple(std::move(get<i()>(a))...); });
        all([&](auto... i) { if(((&get<i()>(a) != &get<i()>(t)) || ...)) bad = true; static_assert((std::is_same_v<decltype(get<i()>(std::move(t))), C<i()>&&> && ...)); (r.push_back([](auto x) { return x.read(); }(C<i()>(get<i()>(std::move(t))))), ...); return 0; });
        return r;
    }
    if(op == "cat") {
        if(how == "A_B") return cat<AT, AT>(xme::tuple_cat(std::move(a), std::move(b)));
        if(how == "A") return cat<AT>(xme::tuple_cat(std::move(a)));
        if(how == "none") { auto t = xme::tuple_cat(); static_assert(std::is_same_v<decltype(t), xme::Tuple<>>); return {}; }
        if(how == "e_A_e_B") { const xme::Tuple<> e1{}; return cat<AT, AT>(xme::tuple_cat(e1, std::move(a), xme::Tuple<>{}, std::move(b))); }
        if(how == "stdB_A") { auto o = all([&](auto... i) { return std::tuple<C<i()>...>(std::move(get<i()>(b))...); }); return cat<AT, AT>(xme::tuple_cat(std::move(o), std::move(a))); }
        if constexpr(copyable) {
            if(how == "a_b") return cat<AT, AT>(xme::tuple_cat(a, std::as_const(b)));
            if(how == "A_b") return cat<AT, AT>(xme::tuple_cat(std::move(a), b));
            if(how == "a_B") return cat<AT, AT>(xme::tuple_cat(a, std::move(b)));
            if(how == "b_a") return cat<AT, AT>(xme::tuple_cat(b, a));
            if(how == "c_b_a") return cat<AT, AT, AT>(xme::tuple_cat(std::as_const(a), b, a));
            if(how == "a") return cat<AT>(xme::tuple_cat(a));
            if(how == "a_tieb") { auto t = all([&](auto... i) { return xme::tie(get<i()>(b)...); }); return cat<AT, typename AsTuple<Seq>::refs>(xme::tuple_cat(a, t)); }
        }
    }
    if constexpr(copyable) {
        if(op == "assign") {
            if(how == "copy") a = b;
            else if(how == "const") a = std::as_const(b);
            else if(how == "std") { Std o{all([&](auto... i) { return Std{get<i()>(b)...}; })}; a = o; if(dump(o) != dump(b)) bad = true; }
            else { const Other o{all([&](auto... i) { return Other{get<i()>(b)...}; })}; a = o; if(dump(o) != dump(b)) bad = true; }
            return {};
        }
        if(op == "self") { auto& x = a; a = x; return {}; }
        if(op == "conv" && how == "copy") { T c(a); if(!(c == a)) bad = true; return dump(c); }
        if constexpr(pair) { if(op == "conv") { std::pair<C<0>, C<K - 1>> p{a.first, a.second}; return {p.first.read(), p.second.read()}; } }
        else {
            if(op == "conv" && how == "std") { Std x = std::as_const(a); return dump(x); }
            if(op == "conv") { typename AggOf<Seq>::type x = a; return AggOf<Seq>::type::dump(x); }
        }
        if(op == "tie") {
            all([&](auto... i) {
                std::tuple<C<i()>...> x;
                if(how == "tie") xme::tie(std::get<i()>(x)...) = std::as_const(a);
                else { auto t = xme::tie(std::get<i()>(x)...); t = a; }
                r = dump(x);
                return 0;
            });
            return r;
        }
    }
    std::exit(3);
}
static int main() {
    static_assert([]<std::size_t... I>(std::index_sequence<I...>) { return (types_ok<I> && ...); }(Seq{}));
    Script s;
    while(s.next()) {
        if(s.op() == "end") { std::puts("bye"); return 0; }
        if(s.op() == "reset") { a = T(); b = T(); all([&](auto... i) { ((get<i()>(a) = C<i()>(0)), ...); ((get<i()>(b) = C<i()>(0)), ...); return 0; }); std::puts("ok"); continue; }
        bad = false;
        auto r = step(s);
        if(dump(a) != dump_members(a)) bad = true;
        std::printf("%s%s %s %s\n", bad ? "INCONSISTENT " : "", show(r).c_str(), show(dump(a)).c_str(), show(dump(b)).c_str());
    }
}
};
int main() { return Test<VP_TUPLE, VP_K>::main(); }
