// Histories interpreted in constant expressions: what is evaluated must be permitted there, free of undefined
// behaviour and leaks, and equal to what the specifications give.  A program is an array of integers.
#pragma once
#include <array>
#include <cstddef>
#include <iterator>
#include <memory>
#include <ranges>
#include <span>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
namespace vp {
consteval int H(const char* s) { unsigned h = 2166136261u; for(; *s; ++s) h = (h ^ (unsigned char)*s) * 16777619u; return int(h & 0x7fffffff); }
struct Reader {
    const int *p, *e;
    constexpr explicit operator bool() const { return p != e; }
    constexpr int get() { return *p++; }
    constexpr std::span<const int> list() { int n = get(); std::span<const int> s(p, std::size_t(n)); p += n; return s; }
};
// elements that own memory; reading a moved-from one gives -1
template<bool Copy> struct Own {
    int* p;
    constexpr Own(int v) : p(new int(v)) {}
    constexpr Own(const Own& o) requires(Copy) : p(o.p ? new int(*o.p) : nullptr) {}
    constexpr Own(Own&& o) noexcept : p(std::exchange(o.p, nullptr)) {}
    constexpr Own& operator=(const Own& o) requires(Copy) { if(this != &o) { int* q = o.p ? new int(*o.p) : nullptr; delete p; p = q; } return *this; }
    constexpr Own& operator=(Own&& o) noexcept { if(this != &o) { delete p; p = std::exchange(o.p, nullptr); } return *this; }
    constexpr ~Own() { delete p; }
    friend constexpr bool operator==(const Own& a, const Own& b) { return rd(a) == rd(b); }
    friend constexpr bool operator<(const Own& a, const Own& b) { return rd(a) < rd(b); }
    friend constexpr auto operator<=>(const Own& a, const Own& b) { return rd(a) <=> rd(b); }
    friend constexpr int rd(const Own& a) { return a.p ? *a.p : -1; }
};
constexpr int rd(int x) { return x; }
template<typename T> constexpr bool copyable = std::is_copy_constructible_v<T>;
template<typename A> struct Hold {                      // an object that is made anew
    A* p;
    template<typename... X> constexpr Hold(X&&... x) : p(new A(std::forward<X>(x)...)) {}
    Hold(const Hold&) = delete;
    constexpr ~Hold() { delete p; }
    template<typename... X> constexpr void make(X&&... x) { A* q = new A(std::forward<X>(x)...); delete p; p = q; }
    constexpr A& operator*() { return *p; }
    constexpr A* operator->() { return p; }
};
template<typename T> struct Source { T *p, *e; };       // a single-pass range; move-only elements are given away
struct Sent {};
template<typename T> struct In {
    using iterator_concept = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t;
    Source<T>* s;
    constexpr std::conditional_t<copyable<T>, T, T&&> operator*() const { return static_cast<std::conditional_t<copyable<T>, T&, T&&>>(*s->p); }
    constexpr In& operator++() { ++s->p; return *this; }
    constexpr void operator++(int) { ++s->p; }
    friend constexpr bool operator==(const In& i, Sent) { return i.s->p == i.s->e; }
};
template<typename T> struct Fwd {                       // a forward iterator
    using iterator_category = std::forward_iterator_tag; using value_type = std::remove_const_t<T>; using difference_type = std::ptrdiff_t; using reference = T&; using pointer = T*;
    T* p = nullptr;
    constexpr T& operator*() const { return *p; }
    constexpr T* operator->() const { return p; }
    constexpr Fwd& operator++() { ++p; return *this; }
    constexpr Fwd operator++(int) { return {p++}; }
    friend constexpr bool operator==(Fwd, Fwd) = default;
};
template<typename T> struct FwdRange { T *b, *e; constexpr Fwd<T> begin() const { return {b}; } constexpr Fwd<T> end() const { return {e}; } };
template<typename F> constexpr void with(int k, F f) {  // f with the constant k
    [&]<std::size_t... I>(std::index_sequence<I...>) { (void)((int(I) == k ? (f(std::integral_constant<std::size_t, I>{}), true) : false) || ...); }(std::make_index_sequence<6>{});
}
}
