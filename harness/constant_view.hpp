#pragma once
#include "constant.hpp"
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
namespace vp {
constexpr std::size_t MAXN = 5, DYN = std::size_t(-1);
template<typename T> struct Views {
    struct Any { constexpr virtual ~Any() {} constexpr virtual bool step(Views&, int, std::span<const int>) = 0; };
    T c1[1]{0}, c2[2]{0, 0}, c3[3]{0, 0, 0}, c4[4]{0, 0, 0, 0}, c5[5]{0, 0, 0, 0, 0};
    std::array<T, 1> a1{0}; std::array<T, 2> a2{0, 0}; std::array<T, 3> a3{0, 0, 0}; std::array<T, 4> a4{0, 0, 0, 0}; std::array<T, 5> a5{0, 0, 0, 0, 0};
    std::vector<T> vec; xme::Array<T> xarr;
    T* base = c1;
    int n = 0;
    Any* view = nullptr;
    bool good = true, isstatic = false;
    int at_ = -1;
    std::vector<int> cells;
    constexpr ~Views() { delete view; }
    template<std::size_t N> constexpr auto& carr() { if constexpr(N == 1) return c1; else if constexpr(N == 2) return c2; else if constexpr(N == 3) return c3; else if constexpr(N == 4) return c4; else return c5; }
    template<std::size_t N> constexpr auto& sarr() { if constexpr(N == 1) return a1; else if constexpr(N == 2) return a2; else if constexpr(N == 3) return a3; else if constexpr(N == 4) return a4; else return a5; }
    constexpr void fill(T* p, int k) { base = p; n = k; for(int i = 0; i < k; ++i) p[i] = T(10 + i); }
    constexpr void make(int k) { vec = std::vector<T>(); vec.reserve(8); for(int i = 0; i < k; ++i) vec.push_back(T(0)); }
    constexpr int where(const T* p) const { for(int i = 0; i < n; ++i) if(base + i == p) return i; return -2; }
    template<typename U, std::size_t S> struct Held : Any {
        xme::ArrayView<U, S> v;
        constexpr Held(xme::ArrayView<U, S> x) : v(x) {}
        constexpr ~Held() override {}
        constexpr bool step(Views& d, int op, std::span<const int> x) override {
            auto a = [&](int i) { return std::size_t(x[i]); };
            switch(op) {
            case H("first"): d.set(std::as_const(v).first(a(0))); return true;
            case H("last"): d.set(std::as_const(v).last(a(0))); return true;
            case H("subview"): d.set(std::as_const(v).subview(a(0), a(1))); return true;
            case H("copy"): { auto w = v; xme::ArrayView<U, S> z(v); w = z; d.set(w); return true; }
            case H("sfirst"): { auto w = v; with(x[0], [&](auto C) { if constexpr(S == DYN || C() <= S) d.set(w.template first<C()>()); }); return true; }
            case H("slast"): { auto w = v; with(x[0], [&](auto C) { if constexpr(S == DYN || C() <= S) d.set(w.template last<C()>()); }); return true; }
            case H("ssubview"): { auto w = v; with(x[0], [&](auto O) { with(x[1], [&](auto C) { if constexpr(O() + C() <= (S == DYN ? MAXN : S)) d.set(w.template subview<O(), C()>()); }); }); return true; }
            }
            if constexpr(!std::is_const_v<U>) {
                switch(op) {
                case H("windex"): v[a(0)] = T(x[1]); break;
                case H("witer"): *(v.begin() + x[0]) = T(x[1]); break;
                case H("wrev"): *(typename xme::ArrayView<U, S>::reverse_iterator(v.end()) + x[0]) = T(x[1]); break;
                case H("wstdrev"): { auto r = std::ranges::rbegin(v); std::advance(r, x[0]); *r = T(x[1]); break; }
                case H("wfront"): v.front() = T(x[0]); break;
                case H("wback"): v.back() = T(x[0]); break;
                case H("wall"): for(auto& e : v) e = T(x[0]); break;
                default: return false;
                }
                d.show(v);
                return true;
            }
            return false;
        }
    };
    template<typename U, std::size_t S> constexpr void show(xme::ArrayView<U, S> v) {
        const auto& cv = v;
        const std::size_t k = v.size();
        cells.clear();
        isstatic = S != DYN;
        auto p = v.begin();
        for(std::size_t i = 0; i < k; ++i, ++p) {
            U* x = &*p;
            cells.push_back(where(x));
            if(&v[i] != x || &cv[i] != x || v.data() + i != x || cv.data() + i != x || &*(cv.begin() + i) != x) good = false;
            if(&*(typename xme::ArrayView<U, S>::reverse_iterator(v.end()) + (k - 1 - i)) != x) good = false;
        }
        if(p != v.end() || cv.begin() + k != cv.end() || cv.size() != k || v.size_bytes() != k * sizeof(T) || v.empty() != (k == 0) || (S != DYN && S != k)) good = false;
        if(k && (&v.front() != &v[0] || &v.back() != &v[k - 1] || &cv.front() != &v[0] || &cv.back() != &v[k - 1])) good = false;
        auto* q = v.data();
        at_ = !q ? -1 : q == base + n ? n : where(q);
    }
    template<typename U, std::size_t S> constexpr void hold(xme::ArrayView<U, S> w) {
        if constexpr(S == DYN || S <= MAXN) { show(w); Any* old = view; view = new Held<U, S>(w); delete old; }
    }
    template<typename V> constexpr void set(V v) { hold(v); }
    constexpr bool source(int op, std::span<const int> x) {
        switch(op) {
        case H("default"): set(xme::ArrayView<T>()); return true;
        case H("sdefault"): set(xme::ArrayView<T, 0>()); return true;
        case H("ptr"): set(xme::ArrayView<T>(base + x[0], std::size_t(x[1]))); return true;
        case H("ptrs"): set(xme::ArrayView<T>(base + x[0], base + x[0] + x[1])); return true;
        case H("iter"): { std::span<T> sp(base, std::size_t(n)); set(xme::ArrayView(sp.begin() + x[0], sp.begin() + x[0] + x[1])); return true; }
        case H("cptr"): { const T* p = base; set(xme::ArrayView(p + x[0], std::size_t(x[1]))); return true; }
        case H("sptr"): with(x[1], [&](auto C) { set(xme::ArrayView<T, C()>(base + x[0], C())); }); return true;
        case H("carr"): case H("carrdyn"): case H("ccarr"):
            with(x[0], [&](auto N) { if constexpr(N() > 0) { auto& a = carr<N()>(); fill(a, N()); if(op == H("carr")) set(xme::ArrayView{a}); else if(op == H("carrdyn")) set(xme::ArrayView<T>(a)); else set(xme::ArrayView{std::as_const(a)}); } }); return true;
        case H("stdarr"): case H("stdarrdyn"): case H("cstdarr"):
            with(x[0], [&](auto N) { if constexpr(N() > 0) { auto& a = sarr<N()>(); fill(a.data(), N()); if(op == H("stdarr")) set(xme::ArrayView{a}); else if(op == H("stdarrdyn")) set(xme::ArrayView<T>(a)); else set(xme::ArrayView{std::as_const(a)}); } }); return true;
        case H("vector"): make(x[0]); fill(vec.data(), x[0]); set(xme::ArrayView<T>(std::span<T>(vec))); return true;
        case H("cvector"): { make(x[0]); fill(vec.data(), x[0]); std::span<const T> sp(vec); set(xme::ArrayView(sp)); return true; }
        case H("span"): { make(x[0]); fill(vec.data(), x[0]); std::span<T> sp(vec); set(xme::ArrayView(sp)); return true; }
        case H("cspan"): { make(x[0]); fill(vec.data(), x[0]); std::span<const T> sp(vec); set(xme::ArrayView<const T>(sp)); return true; }
        case H("xarray"): case H("cxarray"): xarr = xme::Array<T>(std::size_t(8)); for(int i = 0; i < x[0]; ++i) xarr.push_back(T(0)); fill(xarr.data(), x[0]); if(op == H("xarray")) set(xme::ArrayView(xarr)); else set(xme::ArrayView(std::as_const(xarr))); return true;
        }
        return false;
    }
};
// each step: operation, arguments, the cells the view covers, its position, whether its extent is static, all of the memory
template<typename T> constexpr int views(const int* p, const int* e) {
    Views<T> d;
    d.set(xme::ArrayView<T>());
    Reader r{p, e};
    for(int i = 0; r; ++i) {
        const int op = r.get(); const auto x = r.list();
        if(!d.source(op, x) && !d.view->step(d, op, x)) return i;
        const auto cells = r.list(); const int at = r.get(), st = r.get(); const auto mem = r.list();
        if(!d.good || d.cells.size() != cells.size() || (at >= 0 ? d.at_ != at : d.at_ >= 0) || d.isstatic != bool(st) || std::size_t(d.n) != mem.size()) return i;
        for(std::size_t k = 0; k < cells.size(); ++k) if(d.cells[k] != cells[k]) return i;
        for(std::size_t k = 0; k < mem.size(); ++k) if(rd(d.base[k]) != mem[k]) return i;
    }
    return -1;
}
}
