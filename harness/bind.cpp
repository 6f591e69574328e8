// Drives bind_front / bind_back.  VP_K bound values, VP_FRONT; VP_NTTP: bindFront<f> / bindBack<f> instead.
#include "track.hpp"
#include <functional>
#include <optional>
#include <utility>
#include <variant>
#include <xme/core/functional/bind.hpp>
using namespace vp;

template<bool Copy>
struct Cell {                                           // 0 once moved from
    int v = 0;
    std::unique_ptr<int> p{new int(42)};                // so that a bytewise copy is noticed
    Cell() = default;
    Cell(int x) : v(x) {}
    Cell(const Cell& o) requires(Copy) : v(o.v) {}
    Cell(Cell&& o) noexcept : v(std::exchange(o.v, 0)) {}
    Cell& operator=(const Cell& o) requires(Copy) { v = o.v; return *this; }
    Cell& operator=(Cell&& o) noexcept { if(&o != this) v = std::exchange(o.v, 0); return *this; }
    template<typename... A> int look(const A&... a) const;
};
template<bool C> Cell(const Cell<C>&) -> Cell<C>;
static int D = 2;
static bool mutating = true;
struct Report { std::string s; } report;
static std::vector<std::string> seen;
static char as;
static int count;

template<typename A> static void take(A&& a) {          // one argument of the target
    using R = std::remove_reference_t<A>;
    if constexpr(requires { a.get(); }) take(a.get());
    else {
        char c = std::is_lvalue_reference_v<A> ? (std::is_const_v<R> ? 'c' : 'l') : (std::is_const_v<R> ? 'k' : 'r');
        if(*a.p != 42) c = '!';
        seen.push_back(std::to_string(a.v) + c);
        if constexpr(!std::is_const_v<R>) {
            if(mutating) { if constexpr(std::is_lvalue_reference_v<A>) a.v = a.v >= 10 ? a.v + 1 : a.v >= D ? 1 : a.v + 1; else { R t(std::move(a)); } }
        }
    }
}
struct Target {                                         // a function object with a state of its own
    int n = 0; std::unique_ptr<int> pad{new int(7)};
    Target() = default; Target(const Target& o) : n(o.n) {} Target(Target&& o) noexcept : n(o.n) {}
    Target& operator=(const Target& o) { n = o.n; return *this; }
    template<typename... A> Report& hit(char c, A&&... a) const { as = *pad == 7 ? c : '!'; count = n; (take(std::forward<A>(a)), ...); return report; }
    template<typename... A> Report& operator()(A&&... a) & { n = 1 - n; return hit('l', std::forward<A>(a)...); }
    template<typename... A> Report& operator()(A&&... a) const& { return hit('c', std::forward<A>(a)...); }
    template<typename... A> Report& operator()(A&&... a) && { n = 1 - n; return hit('r', std::forward<A>(a)...); }
    template<typename... A> Report& operator()(A&&... a) const&& { return hit('k', std::forward<A>(a)...); }
};
struct Generic { template<typename... A> Report& operator()(A&&... a) const { (take(std::forward<A>(a)), ...); return report; } };
template<typename C, typename I> struct FnOf;
template<typename C, std::size_t> using CR = const C&;
template<typename C, std::size_t... I> struct FnOf<C, std::index_sequence<I...>> {
    static Report& fn(CR<C, I>... a) { (seen.push_back(std::to_string(a.v)), ...); return report; }
};
template<bool C> template<typename... A> int Cell<C>::look(const A&... a) const { seen.push_back(std::to_string(v)); (seen.push_back(std::to_string(a.v)), ...); return 5; }
template<typename C, std::size_t... I> constexpr auto member_of(std::index_sequence<I...>) -> int (C::*)(CR<C, I>...) const { return &C::template look<std::conditional_t<(I >= 0), C, C>...>; }

constexpr int K = VP_K;
constexpr bool front = VP_FRONT;
template<typename F, typename... A> static auto bind_to(F&& f, A&&... a) {
    if constexpr(front) return xme::bind_front(std::forward<F>(f), std::forward<A>(a)...);
    else return xme::bind_back(std::forward<F>(f), std::forward<A>(a)...);
}

template<bool Copy>
struct Test {
using C = Cell<Copy>;
using Seq = std::make_index_sequence<K>;
static inline C x{1};
#ifdef VP_NTTP
template<typename... A> static auto make(A&&... a) {
    if constexpr(front) return xme::bindFront<Generic{}>(std::forward<A>(a)...); else return xme::bindBack<Generic{}>(std::forward<A>(a)...);
}
#else
template<typename... A> static auto make(A&&... a) { return bind_to(Target{}, std::forward<A>(a)...); }
#endif
template<std::size_t I> static C rv() { return C(1); }
template<std::size_t... I> static auto plain_(std::index_sequence<I...>) { return make(rv<I>()...); }
template<std::size_t... I> static auto refd_(std::index_sequence<0, I...>) { return make(std::ref(x), rv<I>()...); }
static auto refd_(std::index_sequence<>) { return make(); }
using P = decltype(plain_(Seq{}));
using Rf = decltype(refd_(Seq{}));
using Obj = std::conditional_t<(K > 0), std::variant<P, Rf>, std::variant<P>>;
static inline std::optional<Obj> a, b;
static inline std::vector<int> values;

template<std::size_t... I> static std::vector<int> rebind(const std::string& how, const std::vector<int>& v, std::index_sequence<I...>) {
    std::array<C, K> src{C(v[I])...};
    a.reset();
    if(how == "r") a.emplace(Obj(std::in_place_index<0>, make(std::move(src[I])...)));
    else if(how == "ref") {
        if constexpr(K > 0) [&]<std::size_t... J>(std::index_sequence<0, J...>) {
            if constexpr(Copy) a.emplace(Obj(std::in_place_index<1>, make(std::ref(x), C(src[J])...)));
        }(Seq{});
    }
#ifndef VP_NTTP
    else if constexpr(Copy) {
        if(how == "l") a.emplace(Obj(std::in_place_index<0>, make(src[I]...)));
        else a.emplace(Obj(std::in_place_index<0>, make(std::as_const(src[I])...)));
    }
#endif
    std::vector<int> r{src[I].v...};
    for(auto& s : src) { s.v = 77; *s.p = 1; }           // the object keeps its own copies
    return r;
}
// calls f with arguments of the given categories; says whether they arrived as themselves
template<typename F> static bool with_args(const std::string& cs, F&& f) {
    C q[3] = {C(11), C(12), C(13)};
    auto& [u, v, w] = q;
    if(cs == "") f();
    else if(cs == "l") f(u); else if(cs == "c") f(std::as_const(u)); else if(cs == "r") f(std::move(u)); else if(cs == "k") f(std::move(std::as_const(u)));
    else if(cs == "lc") f(u, std::as_const(v)); else if(cs == "lr") f(u, std::move(v)); else if(cs == "rc") f(std::move(u), std::as_const(v)); else if(cs == "kl") f(std::move(std::as_const(u)), v);
    else if(cs == "rlc") f(std::move(u), v, std::as_const(w));
    for(std::size_t i = 0; i < cs.size(); ++i)
        if(q[i].v != (!mutating || cs[i] == 'c' || cs[i] == 'k' ? 11 + int(i) : cs[i] == 'l' ? 12 + int(i) : 0)) return false;
    return true;
}
static std::string call(std::optional<Obj>& o, const std::string& cat, const std::string& cs) {
    seen.clear(); as = '?'; count = 0;
    bool same = true;
    bool ok = std::visit([&](auto& f) {
        return with_args(cs, [&](auto&&... v) {
            using T = std::remove_reference_t<decltype(f)>;
            static_assert(std::is_same_v<decltype(f(std::forward<decltype(v)>(v)...)), Report&>);
            Report& r = cat == "l" ? f(std::forward<decltype(v)>(v)...) : cat == "c" ? std::as_const(f)(std::forward<decltype(v)>(v)...)
                : cat == "r" ? std::move(f)(std::forward<decltype(v)>(v)...) : std::move(std::as_const(f))(std::forward<decltype(v)>(v)...);
            same = &r == &report;
        });
    }, *o);
    std::string s = std::string(1, as) + " " + std::to_string(count);
#ifdef VP_NTTP
    s = "?";
#endif
    std::size_t i = 0, m = cs.size();
    for(auto& t : seen) {
        bool bound = front ? i < std::size_t(K) : i >= m;
        if(bound && t.back() == 'k') t.back() = 'c';     // a const rvalue object passes its values as const: either category
        s += " " + t; ++i;
    }
    return s + (ok ? "" : " ARGUMENTS") + (same ? "" : " RESULT");
}
// targets that change nothing: functions and member functions
struct Thrower { int v; bool armed; Thrower(int x, bool a) : v(x), armed(a) {} Thrower(const Thrower& o) : v(o.v), armed(o.armed) { if(armed) throw Boom{}; } Thrower(Thrower&& o) noexcept : v(o.v), armed(o.armed) {}
    Thrower& operator=(const Thrower& o) { if(o.armed) throw Boom{}; v = o.v; return *this; } Thrower& operator=(Thrower&& o) noexcept { v = o.v; armed = o.armed; return *this; } };
template<std::size_t... I> static std::string fails(const std::string& how, std::index_sequence<I...>) {
    const Thrower t(5, true);
    try {
        if(how == "bind") (void)make(C(int(I))..., t);
        else {
            auto o = make(C(int(I))..., Thrower(6, true));
            auto p = make(C(int(I))..., Thrower(7, false));
            if constexpr(Copy) {
                if(how == "copy") { auto q = o; (void)q; }
#ifndef VP_NTTP
                else p = o;
#else
                else throw Boom{};
#endif
            } else throw Boom{};
        }
    } catch(const Boom&) { return "ok"; }
    return "no exception";
}
template<std::size_t... I> static std::string other(const std::string& kind, const std::string& cat, const std::string& cs, std::index_sequence<I...>) {
    seen.clear();
    with_args(cs, [&](auto&&... v) {
        constexpr std::size_t n = K + sizeof...(v);
        auto go = [&](auto f) {
            auto o = bind_to(f, C(values[I])...);
            const auto& co = o;
            if(cat == "l") (void)o(std::forward<decltype(v)>(v)...); else if(cat == "c") (void)co(std::forward<decltype(v)>(v)...);
            else if(cat == "r") (void)std::move(o)(std::forward<decltype(v)>(v)...); else (void)std::move(co)(std::forward<decltype(v)>(v)...);
        };
        if constexpr(n > 0) { if(kind == "member") { go(member_of<C>(std::make_index_sequence<n - 1>{})); return; } }
        if(kind == "fnref") {                            // an lvalue function
            auto o = bind_to(FnOf<C, std::make_index_sequence<n>>::fn, C(values[I])...);
            (void)o(std::forward<decltype(v)>(v)...);
        }
        else go(&FnOf<C, std::make_index_sequence<n>>::fn);
    });
    std::string s;
    for(auto& t : seen) s += t + " ";
    return s;
}
static void run() {
    Script s;
    bool fixed = false;
    while(s.next()) {
        auto op = s.op();
        if(op == "end") break;
        std::string out = "ok";
        auto fresh = [] { rebind("r", std::vector<int>(K, 1), Seq{}); };
        if(op == "reset") { fresh(); b.reset(); b.emplace(std::move(*a)); fresh(); x.v = 1; }
        else if(op == "bind") { auto r = rebind(s.tok[1], s.rest(2), Seq{}); out = "src"; for(int v : r) out += " " + std::to_string(v); }
        else if(op == "setx") x.v = int(s.num(1));
        else if(op == "call") out = call(s.tok[1] == "a" ? a : b, s.tok[2], s.tok[3].substr(1));
        else if(op == "copy") {
            if constexpr(Copy) {
#ifndef VP_NTTP
                if(s.tok[1] == "assign") { b = *a; }
                else
#endif
                { b.reset(); b.emplace(*a); }
            }
        }
        else if(op == "move") {
#ifndef VP_NTTP
            if(s.tok[1] == "assign") b = std::move(*a);
            else
#endif
            { b.reset(); b.emplace(std::move(*a)); }
            fresh();
        }
        else if(op == "fail") out = fails(s.tok[1], Seq{});
        else if(op == "values") { values = s.rest(1); mutating = false; }
        else if(op == "other") { out = other(s.tok[1], s.tok[2], s.tok[3].substr(1), Seq{}); }
        std::puts(out.c_str());
        std::fflush(stdout);
    }
    a.reset(); b.reset();
    std::puts("bye");
}
};
int main(int argc, char** argv) {
    D = std::atoi(argv[2]);
    if(std::string(argv[1]) == "copy") Test<true>::run(); else Test<false>::run();
}
