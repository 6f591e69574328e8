// Matrix operations (spec/Matrices) for many shapes and component types; prints the distinct results of a case.
#include "num.hpp"
#include <xme/math/math.hpp>
using namespace vp;
using namespace xme::math;
static Results res;
template<typename T, std::size_t N> static Vector<T, N> vin(const long* c) {
    Vector<T, N> v; T t[N]; for(std::size_t i = 0; i < N; ++i) t[i] = scaled<T>(c[i]); std::memcpy(&v, t, sizeof v); return v;
}
// through the object representation: column after column
template<typename T, std::size_t C, std::size_t R> static Matrix<T, C, R> in(const std::vector<long>& c, std::size_t at = 0) {
    using M = Matrix<T, C, R>;
    static_assert(sizeof(M) == C * R * sizeof(T) && std::is_trivially_copyable_v<M> && M::columns == C && M::rows == R);
    static_assert(std::is_same_v<typename M::column_type, Vector<T, R>> && std::is_same_v<typename M::row_type, Vector<T, C>>);
    M m; T t[C * R]; for(std::size_t i = 0; i < C * R; ++i) t[i] = scaled<T>(c[at + i]); std::memcpy((void*)&m, t, sizeof m); return m;
}
template<typename F> static auto plain(F f) { const int k = std::exchange(shift, 0); auto r = f(); shift = k; return r; }
template<typename T, std::size_t C, std::size_t R> static std::string out(const Matrix<T, C, R>& m) {
    T t[C * R]; std::memcpy(t, &m, sizeof m); std::string r;
    for(std::size_t i = 0; i < C * R; ++i) {
        r += (i ? " " : "") + show(t[i]);
        const auto same = [](T x, T y) { return x == y || x != x && y != y; };
        if(!same(m[i / R][i % R], t[i]) || !same(const_cast<Matrix<T, C, R>&>(m)[i / R][i % R], t[i])) r += "(or " + show(m[i / R][i % R]) + " by index)";
    }
    return r;
}
template<typename T, std::size_t N> static std::string out(const Vector<T, N>& v) {
    T t[N]; std::memcpy(t, &v, sizeof v); std::string r; for(std::size_t i = 0; i < N; ++i) r += (i ? " " : "") + show(t[i]); return r;
}
template<typename X, typename T, std::size_t C, std::size_t R> static void put(const Matrix<T, C, R>& m, const char* how) { static_assert(std::is_same_v<X, T>); res.add(out(m), std::string(name_of<T>()) + ", " + how); }
template<typename X, typename T, std::size_t N> static void put(const Vector<T, N>& m, const char* how) { static_assert(std::is_same_v<X, T>); res.add(out(m), std::string(name_of<T>()) + ", " + how); }
template<typename T, typename X> static void num(X x, const char* how) { static_assert(std::is_same_v<X, T>); res.add(show(x), std::string(name_of<T>()) + ", " + how); }
template<typename F> static void each_float(F f) { f(float{}); f(double{}); f((long double)0); }
template<typename F> static void each(F f) { each_float(f); f(int{}); f((signed char)0); f(unsigned{}); f(long{}); }
template<typename U> static bool all_fit(const std::vector<long>& v) { return std::all_of(v.begin(), v.end(), [&](long x) { return fits<U>(x, x); }); }
template<std::size_t I, std::size_t N> struct Mixed { using type = std::tuple_element_t<(I + N) % 3, std::tuple<double, float, long double>>; };

template<typename T, std::size_t C, std::size_t R> static void run(const Case& c) {
    if(!fits<T>(c.lo, c.hi)) return;
    using M = Matrix<T, C, R>;
    const auto& op = c.op;
    if(op == "default") { put<T>(M(), "Matrix()"); put<T>(M{}, "Matrix{}"); static M m; return put<T>(m, "static"); }
    if(op == "diag") {
        put<T>(M(scaled<T>(c.s)), "Matrix(s)");
        return each([&](auto u) { using U = decltype(u); if(fits<U>(c.s, c.s)) put<T>(M(scaled<U>(c.s)), "Matrix(s of another type)"); });
    }
    if(op == "from3") {
        if constexpr(C == 4 && R == 4) each_float([&](auto u) { using U = decltype(u); if(shift == 0 && all_fit<U>(c.a)) put<T>(M(in<U, 3, 3>(c.a)), "from a 3x3 matrix"); });
        return;
    }
    if(op == "outer") {
        const auto v = vin<T, R>(c.a.data()); const auto w = vin<T, C>(c.b.data());
        return put<T>(outer_product(v, w), "outer_product");
    }
    const M a = in<T, C, R>(c.a);
#define BINARY(name, o)                                                                                                  \
    if(op == name) {                                                                                                     \
        const M b = in<T, C, R>(c.b);                                                                                    \
        put<T>(a o b, "a " #o " b"); { M x = a; M& r = (x o##= b); put<T>(&r == &x ? x : M{}, "a " #o "= b"); }          \
        each_float([&](auto u) { using U = decltype(u); if(all_fit<U>(c.b)) { const Matrix<U, C, R> b = in<U, C, R>(c.b); put<T>(a o b, "a " #o " b of another type"); M x = a; x o##= b; put<T>(x, "a " #o "= b of another type"); } }); \
        return;                                                                                                          \
    }
#define SCALAR(name, o, raw)                                                                                             \
    if(op == name) {                                                                                                     \
        auto all = [&](const M& a, bool scale) {                                                                         \
            auto one = [&](auto u) { using U = decltype(u); if(!(raw && !scale ? (!special || std::is_floating_point_v<U>) && long(U(c.s)) == c.s && (!std::is_unsigned_v<U> || c.s >= 0) : fits<U>(c.s, c.s))) return; const U s = scale ? scaled<U>(c.s) : unscaled<U>(c.s); \
                put<T>(a o s, "a " #o " s"); { M x = a; M& r = (x o##= s); put<T>(&r == &x ? x : M{}, "a " #o "= s"); } };                                                               \
            each(one);                                                                                                   \
        };                                                                                                               \
        all(a, !raw);                                                                                                    \
        if(#o[0] == '*') all(plain([&] { return in<T, C, R>(c.a); }), true);                                             \
        return;                                                                                                          \
    }
    BINARY("add", +) BINARY("sub", -)
    SCALAR("addall", +, false) SCALAR("suball", -, false) SCALAR("mulall", *, true) SCALAR("divall", /, true)
    if(op == "neg") return put<T>(-a, "-a");
    if(op == "selfadd") { M x = a; x += x; put<T>(x, "a += a"); return put<T>(a + a, "a + a"); }
    if(op == "selfsub") { M x = a; x -= x; put<T>(x, "a -= a"); return put<T>(a - a, "a - a"); }
    if(op == "transpose") {
        put<T>(transpose(a), "transpose");
        if constexpr(C == 4 && R == 4) put<T>(a.transpose(), "member transpose");
        return;
    }
    if(op == "det") {
        if constexpr(C == R && C >= 2 && C <= 4) num<T>(determinant(a), "determinant");
        if constexpr(C == R && C == 4) num<T>(a.determinant(), "member determinant");
        return;
    }
    if(op == "hadamard") return put<T>(hadamard_product(a, in<T, C, R>(c.b)), "hadamard_product");
    if(op == "compare") {
        const M b = in<T, C, R>(c.b);
        auto o = a <=> b; int s = o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2;
        if((a == b) == (a != b) || (a == b) != (b == a) || (a < b) != (s < 0) || (a > b) != (s == 1) || (a <= b) != (s <= 0) || (a >= b) != (s == 0 || s == 1)) res.add("inconsistent", name_of<T>());
        else res.add(std::to_string(a == b) + " " + std::to_string(s), name_of<T>());
        return;
    }
    if(op == "row") return put<T>(a.row(c.b[0]), "row");
    if(op == "column") { put<T>(a.column(c.b[0]), "column"); M x = a; put<T>(x[c.b[0]], "[]"); return put<T>(a[c.b[0]], "const []"); }
    if(op == "set") { M x = a; x[c.b[0]][c.b[1]] = scaled<T>(c.s); return put<T>(x, "a[i][j] = s"); }
    if(op == "setcolumn") { M x = a; for(std::size_t j = 0; j < R; ++j) x[c.b[0]][j] = scaled<T>(c.s * long(j + 1)); return put<T>(x, "a[i] = column"); }
    if(op == "matvec") {
        put<T>(a * vin<T, C>(c.b.data()), "a * v");
        return each([&](auto u) { using U = decltype(u); if(all_fit<U>(c.b)) put<T>(a * vin<U, C>(c.b.data()), "a * v of another type"); });
    }
    if(op == "matmul") {
        auto by = [&](auto k) {
            constexpr std::size_t K = decltype(k)::value;
            if(c.b.size() != K * C) return;
            Matrix<T, K, R> r = a * in<T, K, C>(c.b); put<T>(r, "a * b");
            each_float([&](auto u) { using U = decltype(u); if(all_fit<U>(c.b)) { Matrix<T, K, R> r = a * in<U, K, C>(c.b); put<T>(r, "a * b of another type"); } });
        };
        by(std::integral_constant<std::size_t, 1>{}); by(std::integral_constant<std::size_t, 2>{}); by(std::integral_constant<std::size_t, 3>{}); by(std::integral_constant<std::size_t, 4>{}); by(std::integral_constant<std::size_t, 5>{});
        return;
    }
    if(op == "construct") {
        put<T>(a, "bytes"); { M x(a); put<T>(x, "copy"); M y; y = x; put<T>(y, "assignment"); M z{a}; put<T>(z, "copy in braces"); }
        auto columns = [&]<std::size_t... I>(std::index_sequence<I...>) {
            put<T>(M(vin<T, R>(&c.a[I * R])...), "columns");
            { M x{vin<T, R>(&c.a[I * R])...}; put<T>(x, "columns in braces"); }
            Matrix d(vin<T, R>(&c.a[I * R])...); if constexpr(C > 1) static_assert(std::is_same_v<decltype(d), M>); put<T>(d, "deduced from columns");
            if(all_fit<float>(c.a)) {
                put<T>(M(vin<typename Mixed<I, 0>::type, R>(&c.a[I * R])...), "columns of mixed types"); put<T>(M(vin<typename Mixed<I, 1>::type, R>(&c.a[I * R])...), "columns of mixed types");
                Matrix e(vin<typename Mixed<I, 0>::type, R>(&c.a[I * R])...); static_assert(std::is_same_v<decltype(e), Matrix<std::common_type_t<typename Mixed<I, 0>::type...>, C, R>>);
                put<std::common_type_t<typename Mixed<I, 0>::type...>>(e, "deduced from columns of mixed types");
            }
            if(all_fit<int>(c.a)) put<T>(M(vin<int, R>(&c.a[I * R])...), "columns of integers");
        };
        columns(std::make_index_sequence<C>{});
        each_float([&](auto u) {
            using U = decltype(u); if(!all_fit<U>(c.a)) return;
            const Matrix<U, C, R> w = in<U, C, R>(c.a);
            put<T>(M(w), "conversion"); { M x; M& r = (x = w); put<T>(&r == &x ? x : M{}, "assignment from another type"); }
        });
        return;
    }
}
static_assert(std::is_same_v<mat2, Matrix<float, 2, 2>> && std::is_same_v<mat3, Matrix<float, 3, 3>> && std::is_same_v<mat4, Matrix<float, 4, 4>> && std::is_same_v<dmat2, Matrix<double, 2, 2>> && std::is_same_v<dmat3, Matrix<double, 3, 3>> && std::is_same_v<dmat4, Matrix<double, 4, 4>>);
#define ALIAS(c, r) static_assert(std::is_same_v<mat##c##x##r, Matrix<float, c, r>> && std::is_same_v<dmat##c##x##r, Matrix<double, c, r>>);
ALIAS(2, 2) ALIAS(2, 3) ALIAS(2, 4) ALIAS(3, 2) ALIAS(3, 3) ALIAS(3, 4) ALIAS(4, 2) ALIAS(4, 3) ALIAS(4, 4)
static_assert(std::is_same_v<Matrix<float, 3>, mat3>);
template<std::size_t C, std::size_t R> static void shape(const Case& c) { run<float, C, R>(c); run<double, C, R>(c); run<long double, C, R>(c); }
int main(int, char** argv) {
    const std::string name = argv[1];
    Script s;
    while(s.next()) {
        if(s.op() == "end") break;
        if(s.op() == "reset") { std::puts("ok"); continue; }
        const Case c(s);
        res.r.clear();
        degree = c.deg;
        bool known = false;
        for(int k : {0, -3, degree > 2 ? 9 : 33}) {
            shift = k;
#define SHAPE(c_, r_) if(name == #c_ "x" #r_) known = true, shape<c_, r_>(c);
            VP_SHAPES
        }
        std::puts(known ? res.text().c_str() : "unknown shape");
    }
    std::puts("bye");
}
