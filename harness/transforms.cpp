// Transforms and projections (spec/Transforms) for all component types; prints the distinct results of a case, as numerators.
#include "num.hpp"
#include <xme/math/math.hpp>
using namespace vp;
using namespace xme::math;
static Results res;
static long den;                                  // of the results
template<typename T> static std::string numerator(T x) {
    const long double v = (long double)x * den, n = std::nearbyint(v), tol = sizeof(T) == 4 ? std::min(0.45L, 0.15L + 1e-6L * std::abs(v)) : 1e-6L;
    if(std::abs(v - n) <= tol) return std::to_string((long)n);
    char b[64]; std::snprintf(b, sizeof b, "%.12Lg", v); return b;
}
template<typename T> using M4 = Matrix<T, 4, 4>;
template<typename T> static M4<T> in(const std::vector<long>& a) {
    M4<T> m(0); for(std::size_t i = 0; i < 16; ++i) m[i / 4][i % 4] = T(a[i]); return m;
}
template<typename T> static void put(const M4<T>& m, const std::string& how) {
    std::string r; for(std::size_t i = 0; i < 16; ++i) r += (i ? " " : "") + numerator(m[i / 4][i % 4]);
    res.add(r, std::string(name_of<T>()) + ", " + how);
}
template<typename U> static Vector<U, 3> vec(const long* b, long q) {
    Vector<U, 3> v; for(int i = 0; i < 3; ++i) v[i] = std::is_integral_v<U> ? U(b[i] / q) : U((long double)b[i] / q); return v;
}
template<typename T> static T angle(const long* b) { return T(std::atan2((long double)b[1], (long double)b[0]) + b[3] * 2 * std::acos(-1.0L)); }       // cos, sin, e, turns
template<typename U> static bool suits(const long* b, long q) {
    for(int i = 0; i < 3; ++i) if(std::is_integral_v<U> && b[i] % q || !fits<U>(b[i], b[i])) return false;
    return true;
}
template<typename F> static void vec_types(F f) { f(float{}); f(double{}); f((long double)0); f(int{}); f((signed char)0); f(unsigned{}); }
template<typename T> static M4<T> apply(const M4<T>& m, int kind, const long* p) {
    if(kind == 0) return translate(m, vec<T>(p, p[3]));
    if(kind == 1) return scale(m, vec<T>(p, p[3]));
    return rotate(m, angle<T>(p + 4), vec<T>(p, p[3]));
}
template<typename T> static M4<T> projection(const std::string& op, long s, const std::vector<long>& a) {
    if(op == "perspective") {
        const T fov = T(2 * std::atan2((long double)a[0], (long double)a[1])), asp = T((long double)a[2] / a[3]), n = T(std::ldexp((long double)a[4], shift)), f = T(std::ldexp((long double)a[5], shift));
        return s == 0 ? perspective(fov, asp, n, f) : s == 1 ? perspective_rh(fov, asp, n, f) : perspective_lh(fov, asp, n, f);
    }
    T v[6]; for(int i = 0; i < 6; ++i) v[i] = std::ldexp(T(a[i]), shift);
    if(op == "frustum") return s == 0 ? perspective(v[0], v[1], v[2], v[3], v[4], v[5]) : s == 1 ? perspective_rh(v[0], v[1], v[2], v[3], v[4], v[5]) : perspective_lh(v[0], v[1], v[2], v[3], v[4], v[5]);
    return s == 0 ? ortho(v[0], v[1], v[2], v[3], v[4], v[5]) : s == 1 ? ortho_rh(v[0], v[1], v[2], v[3], v[4], v[5]) : ortho_lh(v[0], v[1], v[2], v[3], v[4], v[5]);
}
template<typename T> static void run(const Case& c) {
    const auto& op = c.op;
    den = c.deg;
    const long* b = c.b.data();
    if(op == "translate" || op == "scale" || op == "rotate") {
        const M4<T> m = in<T>(c.a);
        vec_types([&](auto u) {
            using U = decltype(u);
            if(!suits<U>(b, b[3])) return;
            const auto v = vec<U>(b, b[3]); const std::string how = std::string(name_of<U>()) + " vector";
            if(op == "translate") put<T>(translate(m, v), how);
            else if(op == "scale") put<T>(scale(m, v), how);
            else {
                if(sizeof(U) < sizeof(T) && std::is_floating_point_v<U> && b[3] != 1) return;                 // the axis would be less precise than the result is asked to be
                put<T>(rotate(m, angle<T>(b + 4), v), how); put<T>(rotate(m, angle<long double>(b + 4), v), how + ", long double angle");
                if(sizeof(T) == 4 || b[5] == 0 && b[4] > 0 && b[7] == 0) put<T>(rotate(m, angle<float>(b + 4), v), how + ", float angle");
                if(b[5] == 0 && b[4] > 0 && b[7] == 0) put<T>(rotate(m, 0, v), how + ", integral angle");
            }
        });
        return;
    }
    if(op == "chain") {
        M4<T> m;
        for(std::size_t i = 0, k = 0; k < std::size_t(c.s); ++k) { m = apply<T>(m, b[i], b + i + 2); i += 2 + b[i + 1]; }
        std::string r;
        for(int j = 0; j < 3; ++j) r += (j ? " " : "") + numerator(m[0][j] * c.a[0] + m[1][j] * c.a[1] + m[2][j] * c.a[2] + m[3][j]);
        if(m[0][3] != 0 || m[1][3] != 0 || m[2][3] != 0 || m[3][3] != 1) r += " not affine";
        return res.add(r, name_of<T>());
    }
    for(int k : {0, -3, 7}) {
        shift = k;
        const M4<T> m = projection<T>(op, c.s, c.a);
        const long double p[4] = {std::ldexp((long double)b[0] / b[1], k), std::ldexp((long double)b[2] / b[3], k), std::ldexp((long double)b[4], k), 1};
        long double q[4]; for(int j = 0; j < 4; ++j) { q[j] = 0; for(int i = 0; i < 4; ++i) q[j] += m[i][j] * p[i]; }
        std::string r;
        for(int j = 0; j < 3; ++j) r += (j ? " " : "") + numerator(T(q[j] / q[3]));
        if(!(q[3] > 0)) r += " behind the eye";
        res.add(r, std::string(name_of<T>()) + (k ? ", scaled" : ""));
    }
    shift = 0;
}
int main() {
    Script s;
    while(s.next()) {
        if(s.op() == "end") break;
        if(s.op() == "reset") { std::puts("ok"); continue; }
        const Case c(s);
        res.r.clear();
        run<float>(c); run<double>(c); run<long double>(c);
        std::puts(res.text().c_str());
    }
    std::puts("bye");
}
