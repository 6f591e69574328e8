#pragma once
#include "constant.hpp"
#include <xme/container/array.hpp>
#include <xme/container/heap.hpp>
namespace vp {
template<typename A> constexpr bool holds(A& x, std::span<const int> v) {
    const A& c = x;
    const std::size_t n = v.size();
    if(c.size() != n || c.empty() != (n == 0) || std::size_t(c.end() - c.begin()) != n || std::size_t(x.end() - x.begin()) != n || x.capacity() < n) return false;
    std::size_t i = 0;
    for(auto&& e : c) if(rd(e) != v[i++]) return false;
    i = 0;
    for(auto&& e : x) if(&e != &x[i] || &e != &c[i] || &e != &c.data()[i] || &e != &x.data()[i] || &e != &*(x.begin() + i) || &x.begin()[i++] != &e) return false;
    return i == n && (!n || (&x.front() == &x[0] && &x.back() == &x[n - 1] && &c.front() == &c[0] && &c.back() == &c[n - 1]));
}
template<typename T> constexpr int step(Hold<xme::Array<T>>& a, Hold<xme::Array<T>>& b, int op, std::span<const int> x) {
    using Arr = xme::Array<T>;
    std::vector<T> vs;
    auto fill = [&](std::size_t from) { vs.reserve(x.size()); for(; from < x.size(); ++from) vs.push_back(T(x[from])); };
    auto pos = [&](auto it) { return int(it - a->begin()); };
    auto at = [&](std::size_t i) { return typename Arr::const_iterator(a->begin() + x[i]); };
    Source<T> src{};
    auto in = [&](std::size_t from) { fill(from); src = {vs.data(), vs.data() + vs.size()}; return In<T>{&src}; };
    auto fwd = [&](std::size_t from) { fill(from); return FwdRange<T>{vs.data(), vs.data() + vs.size()}; };
    switch(op) {
    case H("def"): a.make(); return -1;
    case H("defal"): a.make(std::allocator<T>{}); return -1;
    case H("iter"): if constexpr(copyable<T>) { auto f = fwd(0); a.make(f.begin(), f.end()); } else { fill(0); a.make(std::make_move_iterator(vs.begin()), std::make_move_iterator(vs.end())); } return -1;
    case H("pushr"): fill(0); if constexpr(copyable<T>) a->push_back(vs.begin(), vs.end()); else a->push_back(std::make_move_iterator(vs.begin()), std::make_move_iterator(vs.end())); return -1;
    case H("insr"): if constexpr(copyable<T>) { auto f = fwd(1); return pos(a->insert(at(0), f.begin(), f.end())); } else { fill(1); return pos(a->insert(at(0), std::make_move_iterator(vs.begin()), std::make_move_iterator(vs.end()))); }
    case H("cap"): a.make(std::size_t(x[0])); return -1;
    case H("input"): { auto i = in(0); a.make(i, Sent{}); return -1; }
    case H("movector"): b.make(std::move(*a)); return -1;
    case H("massign"): *a = std::move(*b); return -1;
    case H("swap"): a->swap(*b); return -1;
    case H("swapself"): a->swap(*a); return -1;
    case H("push"): fill(0); a->push_back(std::move(vs[0])); return -1;
    case H("emplace"): { auto& r = a->emplace_back(x[0]); return int(&r - a->data()); }
    case H("pushin"): { auto i = in(0); a->push_back(i, Sent{}); return -1; }
    case H("ins"): fill(1); return pos(a->insert(at(0), std::move(vs[0])));
    case H("insin"): { auto i = in(1); return pos(a->insert(at(0), i, Sent{})); }
    case H("pop"): a->pop_back(); return -1;
    case H("erase"): return pos(a->erase(at(0)));
    case H("eraser"): return pos(a->erase(at(0), at(1)));
    case H("clear"): a->clear(); return -1;
    case H("reserve"): a->reserve(std::size_t(x[0])); return -1;
    case H("resize"): a->resize(std::size_t(x[0])); return -1;
    case H("set"): fill(1); (*a)[std::size_t(x[0])] = std::move(vs[0]); return -1;
    }
    if constexpr(copyable<T>) switch(op) {
    case H("fill"): { const T v(x[1]); a.make(std::size_t(x[0]), v); return -1; }
    case H("il"): fill(0); if(vs.size() == 0) a.make(std::initializer_list<T>{}); else if(vs.size() == 1) a.make(std::initializer_list<T>{vs[0]}); else a.make(std::initializer_list<T>{vs[0], vs[1]}); return -1;
    case H("range"): fill(0); a.make(std::span<T>(vs)); return -1;
    case H("ranget"): { fill(0); const std::vector<T>& v = vs; a.make(v); return -1; }
    case H("copyctor"): b.make(std::as_const(*a)); return -1;
    case H("assign"): *a = std::as_const(*b); return -1;
    case H("assignself"): *a = std::as_const(*a); return -1;
    case H("ilassign"): fill(0); if(vs.size() == 0) *a = std::initializer_list<T>{}; else if(vs.size() == 1) *a = std::initializer_list<T>{vs[0]}; else *a = std::initializer_list<T>{vs[0], vs[1]}; return -1;
    case H("pushl"): fill(0); a->push_back(std::as_const(vs[0])); return -1;
    case H("pushself"): a->push_back((*a)[std::size_t(x[0])]); return -1;
    case H("emplself"): { auto& r = a->emplace_back(std::as_const((*a)[std::size_t(x[0])])); return int(&r - a->data()); }
    case H("pushrange"): a->push_back(fwd(0)); return -1;
    case H("pushb"): a->push_back(*b); return -1;
    case H("insl"): fill(1); return pos(a->insert(at(0), std::as_const(vs[0])));
    case H("insself"): return pos(a->insert(at(0), (*a)[std::size_t(x[1])]));
    case H("insb"): return pos(a->insert(at(0), b->begin() + x[1], b->begin() + x[2]));
    case H("insrange"): fill(1); return pos(a->insert(at(0), std::as_const(vs)));
    }
    return -7;
}
template<typename T> constexpr int arrays(const int* p, const int* e) {
    Hold<xme::Array<T>> a, b;
    Reader r{p, e};
    for(int i = 0; r; ++i) {
        const int op = r.get(); const auto x = r.list(); const int want = r.get();
        if(step<T>(a, b, op, x) != want) return i;
        const auto va = r.list(), vb = r.list();
        if(!holds(*a, va) || !holds(*b, vb)) return i;
    }
    return -1;
}
// heaps: after each operation, how many elements there are of each rank
template<typename H_> constexpr bool heap_holds(const H_& h, std::span<const int> counts, int sign) {
    std::vector<int> n(counts.size());
    std::size_t i = 0;
    for(auto& e : h) {
        ++n[std::size_t(sign * rd(e))];
        if(&e != &h[i] || (i && sign * rd(h[(i - 1) / 2]) < sign * rd(h[i]) && sign > 0) || (i && rd(h[(i - 1) / 2]) > rd(h[i]) && sign < 0)) return false;
        ++i;
    }
    if(h.size() != i || h.empty() != (i == 0) || (i && &h.front() != &h[0])) return false;
    for(std::size_t k = 0; k < n.size(); ++k) if(n[k] != counts[k]) return false;
    return true;
}
struct Greater { template<typename T> constexpr bool operator()(const T& a, const T& b) const { return rd(a) > rd(b); } };
template<typename T, typename Cmp> constexpr int heaps(const int* p, const int* e) {
    using Hp = xme::Heap<T, xme::Array<T>, Cmp>;
    constexpr int sign = std::is_same_v<Cmp, Greater> ? -1 : 1;
    Hp h;
    Reader r{p, e};
    for(int i = 0; r; ++i) {
        const int op = r.get();
        switch(op) {
        case H("push"): h.push(T(sign * r.get())); break;
        case H("emplace"): h.emplace(sign * r.get()); break;
        case H("pushl"): if constexpr(copyable<T>) { const T v(sign * r.get()); h.push(v); } break;
        case H("pop"): h.pop(); break;
        case H("copy"): if constexpr(copyable<T>) { Hp g(h); h = Hp(); h = g; } break;
        case H("move"): { Hp g(std::move(h)); h = std::move(g); break; }
        case H("range"): if constexpr(copyable<T>) { std::vector<T> v; for(auto& x : h) v.push_back(x); h = Hp(v.begin(), v.end()); h = Hp(std::span<T>(v)); } break;
        }
        if(!heap_holds(h, r.list(), sign)) return i;
    }
    return -1;
}
}
