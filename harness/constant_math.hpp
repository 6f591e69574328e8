#pragma once
#include "constant.hpp"
#include <compare>
#include <xme/math/math.hpp>
#include <xme/math/quaternion.hpp>
namespace vp {
namespace m = xme::math;
template<typename T> constexpr long most = sizeof(T) == 2 ? 32767 : std::is_same_v<T, float> ? 1l << 24 : std::is_same_v<T, int> ? 2147483647l : 1l << 50;
struct Problem { int op, s; long lo, hi; std::span<const int> a, b, r; };
template<typename T> constexpr bool fits(const Problem& c) { return c.lo >= (std::is_unsigned_v<T> ? 0 : -most<T>) && c.hi <= most<T>; }
template<typename V> constexpr bool compares(const V& a, const V& b, std::span<const int> r) {
    const auto o = a <=> b; const int s = o < 0 ? -1 : o > 0 ? 1 : 0;
    return (a == b) == bool(r[0]) && (a != b) == !r[0] && s == r[1] && (a < b) == (s < 0) && (a > b) == (s > 0) && (a <= b) == (s <= 0) && (a >= b) == (s >= 0);
}
#define VP_BINARY(o) { auto x = a; auto& y = (x o##= b); return &y == &x && same(x) && same(a o b); }
#define VP_SCALAR(o) { const T s = T(c.s); auto x = a; auto& y = (x o##= s); return &y == &x && same(x) && same(a o s); }
// ---- vectors
template<typename T, std::size_t N> constexpr m::Vector<T, N> vec(std::span<const int> c, std::size_t at = 0) { m::Vector<T, N> v{}; for(std::size_t i = 0; i < N; ++i) v[i] = T(c[at + i]); return v; }
template<typename T, std::size_t N> constexpr bool is(const m::Vector<T, N>& v, std::span<const int> r) { if(r.size() != N) return false; for(std::size_t i = 0; i < N; ++i) if(v[i] != T(r[i])) return false; return true; }
template<typename T, std::size_t N> constexpr bool vector_case(const Problem& c) {
    using V = m::Vector<T, N>;
    constexpr bool fp = std::is_floating_point_v<T>;
    const V a = vec<T, N>(c.a), b = c.b.size() == N ? vec<T, N>(c.b) : V{};
    auto same = [&](const V& v) { return is<T, N>(v, c.r); };
    switch(c.op) {
    case H("add"): VP_BINARY(+) case H("sub"): VP_BINARY(-) case H("mul"): VP_BINARY(*) case H("div"): VP_BINARY(/)
    case H("addall"): VP_SCALAR(+) case H("suball"): VP_SCALAR(-) case H("mulall"): VP_SCALAR(*) case H("divall"): VP_SCALAR(/)
    case H("compare"): return compares(a, b, c.r);
    case H("dot"): return m::dot(a, b) == T(c.r[0]);
    case H("face"): if constexpr(std::is_unsigned_v<T>) return true; else return same(m::faceforward(a, b, a)) && same(m::faceforward(a, a, b));
    case H("reflect"): return same(m::reflect(a, b));
    case H("cross"): if constexpr(N == 3) return same(m::cross(a, b)); else return false;
    case H("neg"): if constexpr(std::is_unsigned_v<T>) return true; else return same(-a);
    case H("sign"): if constexpr(std::is_unsigned_v<T>) return true; else return same(m::sign(a));
    case H("lerp"): if constexpr(fp) return same(m::lerp(a, b, T(c.s) / 4)) && same(m::lerp(a, b, float(c.s) / 4)) && same(m::mix(a, b, T(c.s) / 4)) && ((c.s != 0 && c.s != 4) || (same(m::lerp(a, b, c.s == 4)) && same(m::mix(a, b, c.s == 4)))); else return true;
    case H("lerpv"): if constexpr(fp) { V p{}; for(std::size_t i = 0; i < N; ++i) p[i] = T((c.s + 3 * int(i + 1)) % 7 - 1) / 4; return same(m::lerp(a, b, p)) && same(m::mix(a, b, p)); } else return true;
    case H("lerpb"): if constexpr(fp) { m::Vector<bool, N> p{}; for(std::size_t i = 0; i < N; ++i) p[i] = (int(i) + 1 + c.s) % 3 != 0; return same(m::lerp(a, b, p)) && same(m::mix(a, b, p)); } else return true;
    case H("selfadd"): { V x = a; x += x; return same(x) && same(a + a); }
    case H("selfsub"): { V x = a; x -= x; return same(x) && same(a - a); }
    case H("selfmul"): { V x = a; x *= x; return same(x) && same(a * a); }
    case H("selfdiv"): { V x = a; x /= x; return same(x) && same(a / a); }
    case H("addown"): { V x = a; x += x[std::size_t(c.b[0])]; return same(x) && same(a + a[std::size_t(c.b[0])]); }
    case H("mulown"): { V x = a; x *= x[std::size_t(c.b[0])]; return same(x) && same(a * a[std::size_t(c.b[0])]); }
    case H("get"): {
        const std::size_t i = std::size_t(c.b[0]); V x = a; const T want = T(c.r[0]);
        if(a[i] != want || x[i] != want) return false;
        if constexpr(N == 2) return (i == 0 ? a.x : a.y) == want && &x[i] == (i == 0 ? &x.x : &x.y); else if constexpr(N == 3) return (i == 0 ? a.x : i == 1 ? a.y : a.z) == want && &x[i] == (i == 0 ? &x.x : i == 1 ? &x.y : &x.z);
        else if constexpr(N == 4) return (i == 0 ? a.x : i == 1 ? a.y : i == 2 ? a.z : a.w) == want && &x[i] == (i == 0 ? &x.x : i == 1 ? &x.y : i == 2 ? &x.z : &x.w); else return true;
    }
    case H("set"): { V x = a; x[std::size_t(c.b[0])] = T(c.s); return same(x); }
    case H("fill"): return same(V(T(c.s)));
    case H("construct"): {
        V y{}; y = a; V x(a); if(!same(a) || !same(x) || !same(y)) return false;
        return [&]<std::size_t... I>(std::index_sequence<I...>) {
            if constexpr(N > 1) { if(!same(V(T(c.a[I])...)) || !same(V{T(c.a[I])...})) return false; m::Vector d(T(c.a[I])...); if(!same(d)) return false; }
            const m::Vector<long, N> l = vec<long, N>(c.a); const m::Vector<double, N> f = vec<double, N>(c.a);
            V z{}; z = l; V u{}; u = f; if(!same(V(l)) || !same(V(f)) || !same(z) || !same(u)) return false;
            if constexpr(N == 3) return same(V(T(c.a[0]), vec<T, 2>(c.a, 1))) && same(V(vec<T, 2>(c.a), T(c.a[2])));
            else if constexpr(N == 4) return same(V(T(c.a[0]), T(c.a[1]), vec<T, 2>(c.a, 2))) && same(V(T(c.a[0]), vec<T, 2>(c.a, 1), T(c.a[3]))) && same(V(vec<T, 2>(c.a), T(c.a[2]), T(c.a[3]))) && same(V(vec<T, 2>(c.a), vec<T, 2>(c.a, 2))) && same(V(T(c.a[0]), vec<T, 3>(c.a, 1))) && same(V(vec<T, 3>(c.a), T(c.a[3])));
            else return true;
        }(std::make_index_sequence<N>{});
    }
    }
    return false;
}
constexpr Problem problem(Reader& r) { Problem c{}; c.op = r.get(); c.s = r.get(); c.lo = r.get(); c.hi = r.get(); c.a = r.list(); c.b = r.list(); c.r = r.list(); return c; }
template<std::size_t N> constexpr int vectors(const int* p, const int* e) {
    Reader r{p, e};
    for(int i = 0; r; ++i) {
        const Problem c = problem(r);
        if(fits<int>(c) && !vector_case<int, N>(c) || fits<float>(c) && !vector_case<float, N>(c) || fits<double>(c) && !vector_case<double, N>(c) || fits<short>(c) && !vector_case<short, N>(c) || fits<unsigned>(c) && !vector_case<unsigned, N>(c)) return i;
    }
    return -1;
}
// ---- matrices
template<typename T, std::size_t C, std::size_t R> constexpr m::Matrix<T, C, R> mat(std::span<const int> c) { m::Matrix<T, C, R> x{}; for(std::size_t i = 0; i < C * R; ++i) x[i / R][i % R] = T(c[i]); return x; }
template<typename T, std::size_t C, std::size_t R> constexpr bool is(const m::Matrix<T, C, R>& v, std::span<const int> r) { if(r.size() != C * R) return false; for(std::size_t i = 0; i < C * R; ++i) if(v[i / R][i % R] != T(r[i])) return false; return true; }
template<typename T, std::size_t C, std::size_t R> constexpr bool matrix_case(const Problem& c) {
    using M = m::Matrix<T, C, R>;
    auto same = [&](const M& v) { return is<T, C, R>(v, c.r); };
    switch(c.op) {
    case H("default"): return same(M()) && same(M{});
    case H("diag"): return same(M(T(c.s)));
    case H("from3"): if constexpr(C == 4 && R == 4) return same(M(mat<T, 3, 3>(c.a))); else return false;
    case H("outer"): return same(m::outer_product(vec<T, R>(c.a), vec<T, C>(c.b)));
    }
    const M a = mat<T, C, R>(c.a), b = c.b.size() == C * R && c.op != H("matmul") && c.op != H("matvec") ? mat<T, C, R>(c.b) : M();
    switch(c.op) {
    case H("add"): VP_BINARY(+) case H("sub"): VP_BINARY(-)
    case H("addall"): VP_SCALAR(+) case H("suball"): VP_SCALAR(-) case H("mulall"): VP_SCALAR(*) case H("divall"): VP_SCALAR(/)
    case H("neg"): return same(-a);
    case H("selfadd"): { M x = a; x += x; return same(x) && same(a + a); }
    case H("selfsub"): { M x = a; x -= x; return same(x) && same(a - a); }
    case H("transpose"): if constexpr(C == 4 && R == 4) if(!is<T, R, C>(a.transpose(), c.r)) return false; return is<T, R, C>(m::transpose(a), c.r);
    case H("det"): if constexpr(C == R && C >= 2 && C <= 4) { if constexpr(C == 4) if(a.determinant() != T(c.r[0])) return false; return m::determinant(a) == T(c.r[0]); } else return false;
    case H("hadamard"): return same(m::hadamard_product(a, b));
    case H("compare"): return compares(a, b, c.r);
    case H("row"): return is<T, C>(a.row(std::size_t(c.b[0])), c.r);
    case H("column"): { M x = a; const std::size_t i = std::size_t(c.b[0]); return is<T, R>(a.column(i), c.r) && is<T, R>(a[i], c.r) && is<T, R>(x[i], c.r); }
    case H("set"): { M x = a; x[std::size_t(c.b[0])][std::size_t(c.b[1])] = T(c.s); return same(x); }
    case H("setcolumn"): { M x = a; m::Vector<T, R> v{}; for(std::size_t j = 0; j < R; ++j) v[j] = T(c.s * int(j + 1)); x[std::size_t(c.b[0])] = v; return same(x); }
    case H("matvec"): return is<T, R>(a * vec<T, C>(c.b), c.r);
    case H("matmul"): {
        bool good = false;
        with(int(c.b.size() / C), [&](auto k) { if constexpr(k() > 0) { const m::Matrix<T, k(), C> n = mat<T, k(), C>(c.b); const m::Matrix<T, k(), R> x = a * n; good = is<T, k(), R>(x, c.r); } });
        return good;
    }
    case H("construct"): return [&]<std::size_t... I>(std::index_sequence<I...>) {
        M y{}; y = a; M z(a); if(!same(a) || !same(y) || !same(z)) return false;
        m::Matrix d(vec<T, R>(c.a, I * R)...);
        M from(mat<double, C, R>(c.a)); y = mat<float, C, R>(c.a);
        return same(M(vec<T, R>(c.a, I * R)...)) && same(M{vec<T, R>(c.a, I * R)...}) && is<T, C, R>(d, c.r) && same(from) && (c.hi >= most<float> || same(y));
    }(std::make_index_sequence<C>{});
    }
    return false;
}
template<std::size_t C, std::size_t R> constexpr int matrices(const int* p, const int* e) {
    Reader r{p, e};
    for(int i = 0; r; ++i) { const Problem c = problem(r); if(fits<float>(c) && !matrix_case<float, C, R>(c) || fits<double>(c) && !matrix_case<double, C, R>(c)) return i; }
    return -1;
}
// ---- quaternions
template<typename T> constexpr bool quaternion_case(const Problem& c) {
    using Q = m::Quaternion<T>;
    auto make = [](std::span<const int> v) { return v.size() == 4 ? Q(T(v[0]), T(v[1]), T(v[2]), T(v[3])) : Q(); };
    const Q a = make(c.a), b = make(c.b);
    auto wide = [](std::span<const int> v) { return m::Quaternion<double>(v[0], v[1], v[2], v[3]); };
    auto same = [&](const Q& q) { return q.w == T(c.r[0]) && q.x == T(c.r[1]) && q.y == T(c.r[2]) && q.z == T(c.r[3]); };
    switch(c.op) {
    case H("add"): return same(a + b); case H("sub"): return same(a - b); case H("mul"): return same(a * b);
    case H("wadd"): return same(a + wide(c.b)); case H("wsub"): return same(a - wide(c.b)); case H("wmul"): return same(a * wide(c.b));
    case H("selfadd"): return same(a + a); case H("selfmul"): return same(a * a);
    case H("compare"): return compares(a, b, c.r);
    case H("get"): { Q x = a; const std::size_t i = std::size_t(c.b[0]); return a[i] == T(c.r[0]) && x[i] == T(c.r[0]) && &x[i] == (i == 0 ? &x.w : i == 1 ? &x.x : i == 2 ? &x.y : &x.z); }
    case H("set"): { Q x = a; x[std::size_t(c.b[0])] = T(c.s); return same(x); }
    case H("construct"): { Q x(a), y{}; y = a; m::Quaternion d(T(c.a[0]), T(c.a[1]), T(c.a[2]), T(c.a[3])); return same(a) && same(x) && same(y) && same(d) && same(Q{T(c.a[0]), T(c.a[1]), T(c.a[2]), T(c.a[3])}); }
    }
    return false;
}
template<int> constexpr int quaternions(const int* p, const int* e) {
    Reader r{p, e};
    for(int i = 0; r; ++i) { const Problem c = problem(r); if(fits<float>(c) && !quaternion_case<float>(c) || fits<double>(c) && !quaternion_case<double>(c)) return i; }
    return -1;
}
// ---- transforms without trigonometry, with whole numbers: translations and scalings
template<typename T> constexpr bool transform_case(const Problem& c) {
    m::Matrix<T, 4, 4> a = mat<T, 4, 4>(c.a);
    const m::Vector<T, 3> v = vec<T, 3>(c.b);
    return is<T, 4, 4>(c.op == H("translate") ? m::translate(a, v) : m::scale(a, v), c.r);
}
template<int> constexpr int transforms(const int* p, const int* e) {
    Reader r{p, e};
    for(int i = 0; r; ++i) { const Problem c = problem(r); if(!transform_case<float>(c) || !transform_case<double>(c)) return i; }
    return -1;
}
}
