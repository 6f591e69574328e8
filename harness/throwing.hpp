// Elements and callables that throw (spec/Throwing); the cases are a generated table of instantiations.
#include "track.hpp"
#include <list>
#include <tuple>
#include <utility>
#include <vector>
#include <xme/container/pair.hpp>
#include <xme/container/tuple.hpp>
#include <xme/container/array.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/core/algorithm/find.hpp>
#include <xme/core/algorithm/reverse.hpp>
#include <xme/core/functional/bind.hpp>
#include <xme/core/functional/delegate.hpp>
#include <xme/hal/shared_library.hpp>
struct Boom { int part; };
static int armed, living;
enum { CC = 1, MC = 2, CA = 4, MA = 8, SW = 16, EQ = 64, CL = 128, CC_ = 256, CM = 512, CCM = 1024, CALL = CL | CC_ | CM | CCM, ALL = 31 | EQ | CALL };
inline void risk(int part) { if(armed == part) throw Boom{part}; }
template<int F, int I> struct E {
    int v;
    E(int x) noexcept : v(x) { ++living; }
    E(const E& o) noexcept(!(F & CC)) : v(o.v) { if constexpr((F & CC) != 0) risk(I); ++living; }
    E(E&& o) noexcept(!(F & MC)) : v(o.v) { if constexpr((F & MC) != 0) risk(I); o.v = 0; ++living; }
    E& operator=(const E& o) noexcept(!(F & CA)) { if constexpr((F & CA) != 0) risk(I); v = o.v; return *this; }
    E& operator=(E&& o) noexcept(!(F & MA)) { if constexpr((F & MA) != 0) risk(I); v = o.v; o.v = 0; return *this; }
    ~E() { --living; }
    friend void swap(E& a, E& b) noexcept(!(F & SW)) { if constexpr((F & SW) != 0) risk(I); std::swap(a.v, b.v); }
    friend bool operator==(const E& a, const E& b) noexcept(!(F & EQ)) { if constexpr((F & EQ) != 0) risk(I); return a.v == b.v; }
#define OVERLOAD(Q, FLAG) template<typename... A> int operator()(const A&...) Q noexcept(!(F & FLAG)) { if constexpr((F & FLAG) != 0) risk(I); return 5; }
    OVERLOAD(&, CL) OVERLOAD(const&, CC_) OVERLOAD(&&, CM) OVERLOAD(const&&, CCM)
};
template<typename... T> static std::string show(const T&... x) { std::string s; ((s += (s.empty() ? "" : ",") + std::to_string(x.v)), ...); return s; }
template<typename F> static bool threw(int at, F&& f) {
    armed = at;
    bool r = false;
    try { f(); }
    catch(const Boom& b) { r = b.part == at; if(!r) std::puts("other"); }
    armed = 0;
    return r;
}
static std::string result(bool ne, bool t, const std::string& d, const std::string& s) { return std::string(ne ? "n" : "y") + (t ? "t" : "f") + " " + (d.empty() ? "-" : d) + " " + s; }
#define OP(NAME) template<typename Of, typename... P> static std::string NAME(int at)
struct UsePair { template<typename... P> using type = xme::Pair<P...>; template<typename... P> using like = std::pair<P...>; };
struct UseTuple { template<typename... P> using type = xme::Tuple<P...>; template<typename... P> using like = std::tuple<P...>; };
template<typename... T, std::size_t... I> std::string show_all(const auto& t, std::index_sequence<I...>) { using std::get; using xme::get; return show(get<I>(t)...); }
template<typename... P> std::string all(const auto& t) { return show_all(t, std::index_sequence_for<P...>{}); }
// values 1.. and 11..
template<typename T, typename... P> T built(int from) { return [&]<std::size_t... I>(std::index_sequence<I...>) { return T{P(from + int(I))...}; }(std::index_sequence_for<P...>{}); }
#define ASSIGN(NAME, SRC, EXPR) OP(NAME) { \
    using T = typename Of::template type<P...>; \
    T d = built<T, P...>(1); SRC s = built<SRC, P...>(11); \
    constexpr bool ne = noexcept(EXPR); const bool t = threw(at, [&] { EXPR; }); \
    return result(ne, t, all<P...>(d), all<P...>(s)); }
template<typename Of, typename... P> using Like = typename Of::template like<P...>;
template<typename Of, typename... P> using Same = typename Of::template type<P...>;
#define COMMA ,
ASSIGN(copy, Same<Of COMMA P...>, d = std::as_const(s))
ASSIGN(move, Same<Of COMMA P...>, d = std::move(s))
ASSIGN(assign, Same<Of COMMA P...>, d = s)
ASSIGN(like, Like<Of COMMA P...>, d = s)
ASSIGN(likemove, Like<Of COMMA P...>, d = std::move(s))
ASSIGN(swap, Same<Of COMMA P...>, d.swap(s))
ASSIGN(freeswap, Same<Of COMMA P...>, std::ranges::swap(d, s))
template<typename Of, typename... P, typename F> static std::string making(int at, F&& f) {
    std::tuple<P...> s = built<std::tuple<P...>, P...>(11);
    bool ne = false;
    const bool t = threw(at, [&] { std::apply([&](auto&... x) { f(ne, x...); }, s); });
    return result(ne, t, "", all<P...>(s));
}
#define MAKING(NAME, PAIR, TUPLE) OP(NAME) { return making<Of, P...>(at, [](bool& ne, auto&... x) { \
    if constexpr(std::is_same_v<Of, UsePair>) { ne = noexcept(PAIR); [[maybe_unused]] auto&& r = PAIR; } \
    else { ne = noexcept(TUPLE); [[maybe_unused]] auto&& r = TUPLE; } }); }
MAKING(make, xme::make_pair(x...), xme::make_tuple(x...))
MAKING(makemove, xme::make_pair(std::move(x)...), xme::make_tuple(std::move(x)...))
MAKING(bind, xme::bind_front(x...), xme::bind_front(x...))
MAKING(bindmove, xme::bind_front(std::move(x)...), xme::bind_front(std::move(x)...))
MAKING(back, xme::bind_back(x...), xme::bind_back(x...))
MAKING(backmove, xme::bind_back(std::move(x)...), xme::bind_back(std::move(x)...))
#define CALLING(NAME, SET, EXPR) OP(NAME) { \
    using F = std::tuple_element_t<0, std::tuple<P...>>; \
    F f(11); SET; constexpr bool ne = noexcept(EXPR); int n = 0; \
    const bool t = threw(at, [&] { n = EXPR; }); \
    if(at == 0 && n != 5) return "wrong result"; \
    if(n = EXPR; n != 5) return "unusable"; \
    return result(ne, t, "", show(f)); }
CALLING(apply, [[maybe_unused]] int z, xme::apply(f, xme::Tuple<int COMMA long>{1 COMMA 2}))
CALLING(applymove, [[maybe_unused]] int z, xme::apply(std::move(f), xme::Tuple<int COMMA long>{1 COMMA 2}))
CALLING(call, auto b = xme::bind_front(f COMMA 1), b(2))
CALLING(callconst, const auto b = xme::bind_front(f COMMA 1), b(2))
CALLING(callmove, auto b = xme::bind_front(f COMMA 1), std::move(b)(2))
CALLING(callconstmove, const auto b = xme::bind_front(f COMMA 1), std::move(b)(2))
CALLING(backconst, const auto b = xme::bind_back(f COMMA 1), b(2))
CALLING(backcallmove, auto b = xme::bind_back(f COMMA 1), std::move(b)(2))
CALLING(backconstmove, const auto b = xme::bind_back(f COMMA 1), std::move(b)(2))
CALLING(applyconst, [[maybe_unused]] int z, xme::apply(std::as_const(f), xme::Tuple<int COMMA long>{1 COMMA 2}))
CALLING(callback, auto b = xme::bind_back(f COMMA 1), b(2))
CALLING(delegate, xme::Delegate<int(int)> b(f), b(2))
#define SEARCH(NAME, EXPR) OP(NAME) { \
    using T = std::tuple_element_t<0, std::tuple<P...>>; \
    std::vector<T> v; v.reserve(5); for(int i = 0; i < 5; ++i) v.emplace_back(i == 3 ? 11 : i); \
    const T x(11); constexpr bool ne = noexcept(EXPR); \
    const bool t = threw(at, [&] { if(EXPR != v.begin() + 3) std::puts("wrong"); }); \
    return result(ne, t, "", show(x)); }
SEARCH(find, xme::find(v.begin(), v.end(), x))
SEARCH(findrange, xme::find(v, x))
#define REVERSE(NAME, EXPR) OP(NAME) { \
    using T = std::tuple_element_t<0, std::tuple<P...>>; \
    std::list<T> v; for(int i = 0; i < 4; ++i) v.emplace_back(11 + i); \
    constexpr bool ne = noexcept(EXPR); const bool t = threw(at, [&] { EXPR; }); \
    if(!t && (v.front().v != 14 || v.back().v != 11)) return "not reversed"; \
    if(!t) v.front().v = 11; \
    return result(ne, t, "", show(v.front())); }
REVERSE(reverse, xme::reverse(v.begin(), v.end()))
REVERSE(reverserange, xme::reverse(v))
// taking over never throws, whatever the elements
template<typename T> inline constexpr bool calm = std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T> && std::is_nothrow_swappable_v<T> && std::is_nothrow_destructible_v<T>;
using Wild = E<ALL, 1>;
static_assert(calm<xme::Array<Wild>> && calm<xme::Array<int>>);
static_assert(calm<xme::LinkedList<Wild>> && calm<xme::LinkedList<int>>);
static_assert(calm<xme::Heap<Wild>>);
static_assert(calm<xme::Delegate<void()>>);
static_assert(std::is_nothrow_move_constructible_v<xme::hal::SharedLibrary> && std::is_nothrow_move_assignable_v<xme::hal::SharedLibrary>);
