#pragma once
#include "constant.hpp"
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/core/algorithm/find.hpp>
#include <xme/core/algorithm/reverse.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>
namespace vp {
struct V { int v; constexpr bool operator==(const V&) const = default; };
struct RawSeq { using it = V*; using cit = const V*; std::vector<V> c; constexpr explicit RawSeq(int n) { for(int i = 0; i < n; ++i) c.push_back({i}); } constexpr V* elem(int i) { return c.data() + i; } constexpr it pos(int p) { return c.data() + p; } };
struct ArraySeq { using C = xme::Array<V>; using it = C::iterator; using cit = C::const_iterator; C c; constexpr explicit ArraySeq(int n) { for(int i = 0; i < n; ++i) c.push_back(V{i}); } constexpr V* elem(int i) { return c.data() + i; } constexpr it pos(int p) { return it(c.data() + p); } };
template<typename It> using Rv = xme::ReverseIterator<It>;
template<typename It> using Cn = xme::ConstIterator<It>;
template<typename> struct Inner; template<template<typename> class O, typename I> struct Inner<O<I>> { using type = I; };
template<typename Z, bool rev, typename S> struct Maker {
    S& s; int n;
    constexpr Z operator()(int p) const {
        if constexpr(std::is_constructible_v<Z, typename S::it>) return Z(s.pos(rev ? n - p : p));
        else return Z(typename Inner<Z>::type(s.pos(rev ? n - p : p)));
    }
};
template<typename S, typename A, typename B, typename MA> struct Side { A& a; B& b; MA ma; S& s; int n; bool rev; };
// results: positions as numbers, comparisons as a number whose digits are the six answers
template<typename S, typename A, typename B, typename MA, typename MB>
constexpr int on(int op, A& a, B& b, MA ma, MB mb, S& s, int n, int k, int w, bool ra, bool rb) {
    auto where = [&](const auto& z, auto mk, bool rev) {
        int found = -1, count = 0;
        for(int p = 0; p <= n; ++p) { const auto o = mk(p); const bool e = z == o; if(e != (o == z) || e != !(z != o)) return -100; if(e) { ++count; found = p; } }
        if(count == 1 && found < n && &*z != s.elem(rev ? n - 1 - found : found)) return -101;
        return count == 1 ? found : -102;
    };
    auto at = [&](const A& z) { return where(z, ma, ra); };
    const std::ptrdiff_t d = k;
    const A& ca = a;
    switch(op) {
    case H("++i"): { A& r = ++a; return &r == &a ? at(a) : -103; }
    case H("i++"): { A r = a++; return at(r); }
    case H("--i"): { A& r = --a; return &r == &a ? at(a) : -103; }
    case H("i--"): { A r = a--; return at(r); }
    case H("i+=k"): { A& r = a += d; return &r == &a ? at(a) : -103; }
    case H("i-=k"): { A& r = a -= d; return &r == &a ? at(a) : -103; }
    case H("i+k"): return at(ca + d);
    case H("k+i"): return at(d + ca);
    case H("i-k"): return at(ca - d);
    case H("i[k]"): return ca[d].v;
    case H("*i"): return (*ca).v;
    case H("i->"): if constexpr(std::is_pointer_v<A> || requires { a.operator->(); }) return ca->v; else return -104;
    case H("first"): a = ma(0); return at(a);
    case H("last"): a = ma(n); return at(a);
    case H("copy"): { A t(a); const int r = at(t); if(n) { if(r == n) t = ma(0); else ++t; } return r == at(a) ? r : -105; }
    case H("self"): { A t(a); a = ma(0); a = std::move(t); return at(a); }
    case H("distance"): if constexpr(requires { ca - std::as_const(b); }) return int(ca - std::as_const(b)); else return -104;
    case H("three-way"): if constexpr(requires { ca <=> std::as_const(b); }) { auto o = ca <=> std::as_const(b); return o < 0 ? -1 : o > 0 ? 1 : 0; } else return -104;
    case H("compare"): if constexpr(requires { ca == std::as_const(b); }) { const B& cb = b; if((ca == cb) != (cb == ca) || (ca != cb) != (cb != ca)) return -106;
        return 1000000 + (ca == cb) * 100000 + (ca != cb) * 10000 + (ca < cb) * 1000 + (ca > cb) * 100 + (ca <= cb) * 10 + (ca >= cb); } else return -104;
    case H("walk"): { int r = 1; for(A i = ma(0), z = ma(n); i != z; ++i) r = r * 7 + (*i).v; return r; }
    case H("walk back"): { int r = 1; for(A i = ma(n), z = ma(0); i != z;) { i--; r = r * 7 + (*i).v; } return r; }
    case H("make"): if constexpr(std::is_constructible_v<B, const A&>) { B t(ca); b = t; return where(b, mb, rb); } else return -104;
    case H("assign"): if constexpr(std::is_convertible_v<const A&, B>) { b = ca; return where(b, mb, rb); } else return -104;
    }
    switch(op) {
    case H("*i="): if constexpr(requires { *ca = V{w}; }) { *ca = V{w}; return 0; } else return -104;
    case H("i->="): if constexpr(requires { ca->v = w; }) { ca->v = w; return 0; } else return -104;
    case H("i[k]="): if constexpr(requires { ca[d] = V{w}; }) { ca[d] = V{w}; return 0; } else return -104;
    }
    return -107;
}
// each step: operation, slot (0: x, 1: y), k, value to write, result
template<typename S, typename X, bool rx, typename Y, bool ry> constexpr int iterators(const int* p, const int* e) {
    Reader r{p, e};
    const int n = r.get();
    S s(n);
    Maker<X, rx, S> mx{s, n}; Maker<Y, ry, S> my{s, n};
    X x = mx(0); Y y = my(0);
    for(int i = 0; r; ++i) {
        const int op = r.get(), slot = r.get(), k = r.get(), w = r.get(), want = r.get();
        if((slot ? on(op, y, x, my, mx, s, n, k, w, ry, rx) : on(op, x, y, mx, my, s, n, k, w, rx, ry)) != want) return i;
    }
    return -1;
}
// find: cells of class 0 not equal, 1 equal, 2 equal with other bytes, 3 same bytes but not equal
template<typename T> struct Cells { static constexpr T needle() { return T(77); } static constexpr T cell(int c, int i) { return c ? T(77) : T(77 ^ (1 << i % 6)); } };
template<> struct Cells<double> { static constexpr double needle() { return 0.0; } static constexpr double cell(int c, int i) { return c == 1 ? 0.0 : c == 2 ? -0.0 : double(i + 1); } };
struct Mod { unsigned char v; friend constexpr bool operator==(Mod a, Mod b) { return a.v % 16 == b.v % 16; } };
template<> struct Cells<Mod> { static constexpr Mod needle() { return {7}; } static constexpr Mod cell(int c, int i) { return c == 1 ? Mod{7} : c == 2 ? Mod{(unsigned char)(7 + 16 * (1 + i % 15))} : Mod{(unsigned char)(i % 7 + 16 * (i % 16))}; } };
struct Nan { static constexpr float needle() { return __builtin_nanf(""); } static constexpr float cell(int c, int i) { return c == 3 ? needle() : float(i); } };
template<typename T, typename M> constexpr bool finds(std::span<const int> cs, int want) {
    const int n = int(cs.size());
    std::vector<T> v; for(int i = 0; i < n; ++i) v.push_back(M::cell(cs[std::size_t(i)], i));
    const T needle = M::needle();
    T *b = v.data(); const T* cb = b;
    if(xme::find(b, b + n, needle) - b != want || xme::find(cb, cb + n, needle) - cb != want || xme::find(v, needle) - v.begin() != want) return false;
    xme::ArrayView<T> w(b, std::size_t(n)); xme::Array<T> a(v.begin(), v.end());
    if(xme::find(w, needle) - w.begin() != want || xme::find(a, needle) - a.begin() != want) return false;
    FwdRange<T> f{b, b + n};
    return xme::find(f.begin(), f.end(), needle).p - b == want && xme::find(f, needle).p - b == want;
}
template<int> constexpr int finding(const int* p, const int* e) {       // each case: cells, the result
    Reader r{p, e};
    for(int i = 0; r; ++i) {
        const auto cs = r.list(); const int want = r.get();
        bool never = false; for(int c : cs) never |= c == 3;
        if(never ? !finds<float, Nan>(cs, want) : !(finds<int, Cells<int>>(cs, want) && finds<char, Cells<char>>(cs, want) && finds<double, Cells<double>>(cs, want) && finds<Mod, Cells<Mod>>(cs, want) && finds<short, Cells<short>>(cs, want) && finds<long, Cells<long>>(cs, want))) return i;
    }
    return -1;
}
template<typename T> constexpr bool reverses(int l, int n, std::span<const int> after) {
    const int m = int(after.size());
    auto fresh = [&] { std::vector<T> v; for(int i = 0; i < m; ++i) v.push_back(T(i % 251)); return v; };
    auto right = [&](auto& v) { for(int i = 0; i < m; ++i) if(rd(v[std::size_t(i)]) != after[std::size_t(i)]) return false; return true; };
    { auto v = fresh(); T* b = v.data(); if(xme::reverse(b + l, b + l + n) != b + l + n || !right(v)) return false; }
    { auto v = fresh(); if(xme::reverse(v.begin() + l, v.begin() + l + n) != v.begin() + l + n || !right(v)) return false; }
    { auto v = fresh(); xme::ArrayView<T> w(v.data() + l, std::size_t(n)); xme::reverse(w); if(!right(v)) return false; }
    { auto v = fresh(); xme::Array<T> a(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end())); if(xme::reverse(a.begin() + l, a.begin() + l + n) != a.begin() + l + n || !right(a)) return false; }
    return true;
}
constexpr int rd(short x) { return x; }
constexpr int rd(unsigned char x) { return x; }
constexpr int rd(long x) { return int(x); }
template<int> constexpr int reversing(const int* p, const int* e) {     // each case: cells before, cells of the range, the memory afterwards
    Reader r{p, e};
    for(int i = 0; r; ++i) {
        const int l = r.get(), n = r.get(); const auto after = r.list();
        if(!(reverses<int>(l, n, after) && reverses<unsigned char>(l, n, after) && reverses<short>(l, n, after) && reverses<long>(l, n, after) && reverses<Own<false>>(l, n, after))) return i;
    }
    return -1;
}
}
