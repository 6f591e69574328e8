// Constants and trigonometric helpers.  "constants": every constant in every type; otherwise lines "f t x k": f(x 2^k) 2^-k.
#include <xme/math/constants.hpp>
#include <xme/math/scalars/trigonometry.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <type_traits>
namespace m = xme::math;
// s and m; the number is that times 2^e
static void put(long double v) {
    if(v != v) { std::printf("{\"s\":0,\"m\":[],\"e\":0}"); return; }
    int s = __builtin_signbit(v) ? -1 : 1;
    long double a = v < 0 ? -v : v;
    if(!(a < 1e30L)) { std::printf("{\"s\":%d,\"m\":[],\"e\":0}", 2 * s); return; }
    int e = 0;
    for(; a >= 1e12L; e++) a /= 2;
    char b[128];
    std::snprintf(b, sizeof b, "%065.48Lf", a);                      // 16 digits, the point, 48 digits
    std::memmove(b + 16, b + 17, 49);
    if(a == 0) s = 1;
    std::printf("{\"s\":%d,\"m\":[", s);
    for(int i = 0; i < 16; i++) {
        char d[5] = {b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3], 0};
        std::printf("%s%d", i ? "," : "", std::atoi(d));
    }
    std::printf("],\"e\":%d}", e);
}
template<class T> constexpr int prec() {
    static_assert(std::is_arithmetic_v<T>);
    return std::is_same_v<T, float> ? 24 : std::is_same_v<T, double> ? 53 : std::is_same_v<T, long double> ? 64 : 0;
}
template<class T> static void constant(const char* n, T v) {
    std::printf("{\"n\":\"%s\",\"p\":%d,\"v\":", n, prec<T>());
    put(v);
    std::printf("}\n");
}
#define NAMES \
    X(e) X(e_sqr) X(e_pow_pi) X(pi) X(two_pi) X(two_over_pi) X(pi_over_two) X(pi_sqr) X(inv_pi) X(tau) X(log2_e) X(log10_e) X(ln_two) X(ln_ten) \
    X(sqrt_two) X(sqrt_three) X(sqrt_five) X(sqrt_e) X(sqrt_pi) X(sqrt_two_pi) X(sqrt_two_pi_e) X(inv_sqrt_pi) X(cbrt_two) X(inv_fibonacci) X(phi) \
    X(catalan) X(euler) X(gauss) X(plastic) X(zeta_two) X(zeta_three) X(zeta_four)
static void constants() {
#ifdef VP_MODULE                                 // what the modules offer
#define X(n) constant(#n, m::n);
    X(pi) X(e) X(phi) X(ln_ten) X(ln_two) X(sqrt_two) X(sqrt_three)
#undef X
#else
#define X(n) constant<float>(#n, m::n##_v<float>); constant<double>(#n, m::n##_v<double>); constant<long double>(#n, m::n##_v<long double>); constant(#n, m::n);
    NAMES
#undef X
#endif
}
template<class T, class R> static void result(const char* f, const char* t, T x, long double y, R) {
    std::printf("{\"f\":\"%s\",\"t\":\"%s\",\"p\":%d,\"x\":", f, t, prec<R>());
    put((long double)x);
    std::printf(",\"y\":");
    put(y);
    std::printf("}\n");
}
template<class T> static void call(const char* f, const char* t, T x, int k) {
#define F(n) if(!std::strcmp(f, #n)) { auto y = m::n(x); result(f, t, x, y, y); return; }
    F(sin) F(cos) F(tan) F(sec) F(csc) F(cot) F(arcsin) F(arccos) F(arctan)
#undef F
    if constexpr(std::is_floating_point_v<T>) {
        const T z = k ? (T)__builtin_ldexpl((long double)x, k) : x;
#define F(n) if(!std::strcmp(f, #n)) { auto y = m::n(z); result(f, t, x, __builtin_ldexpl((long double)y, -k), y); return; }
        F(radians) F(degrees)
#undef F
    }
    std::fprintf(stderr, "what is %s of %s\n", f, t);
    std::exit(3);
}
// the angle conversions are usable in constant expressions
constexpr double right = m::radians(90.0), whole = 2 * m::pi, turn = m::degrees(whole);
int main(int argc, char** argv) {
    if(argc > 1) { constants(); return 0; }
    char f[32], t[32], x[64];
    int k;
    while(std::scanf("%31s %31s %63s %d", f, t, x, &k) == 4) {
        if(!std::strcmp(t, "float")) call<float>(f, t, std::strtof(x, 0), k);
        else if(!std::strcmp(t, "double")) call<double>(f, t, std::strtod(x, 0), k);
        else if(!std::strcmp(t, "long_double")) call<long double>(f, "long double", std::strtold(x, 0), k);
        else if(!std::strcmp(t, "int")) call<int>(f, t, std::atoi(x), k);
        else if(!std::strcmp(t, "unsigned")) call<unsigned>(f, t, (unsigned)std::atoi(x), k);
        else if(!std::strcmp(t, "char")) call<signed char>(f, t, (signed char)std::atoi(x), k);
        else if(!std::strcmp(t, "long")) call<long>(f, t, std::atol(x), k);
        else return 4;
    }
    result("radians", "double", 90.0, right, right);
    result("degrees", "double", whole, turn, turn);
}
