// Vector operations (spec/Vectors) of dimension VP_N for all component types; prints the distinct results of a case.
#include "num.hpp"
#include <xme/math/math.hpp>
using namespace vp;
using namespace xme::math;
constexpr std::size_t N = VP_N;
template<typename T> using V = Vector<T, N>;
static Results res;

// through the object representation: the components lie in order, without gaps
template<typename T> static V<T> in(const std::vector<long>& c) {
    static_assert(sizeof(V<T>) == N * sizeof(T) && std::is_trivially_copyable_v<V<T>>);
    V<T> v; T t[N]; for(std::size_t i = 0; i < N; ++i) t[i] = scaled<T>(c[i]); std::memcpy(&v, t, sizeof v); return v;
}
template<typename T> static V<T> plain(const std::vector<long>& c) { const int k = std::exchange(shift, 0); V<T> v = in<T>(c); shift = k; return v; }
template<typename T> static std::string out(const V<T>& v) {
    T t[N]; std::memcpy(t, &v, sizeof v); std::string r; for(std::size_t i = 0; i < N; ++i) r += (i ? " " : "") + show(t[i]); return r;
}
template<typename T> static void put(const V<T>& v, const char* how) { res.add(out<T>(v), std::string(name_of<T>()) + ", " + how); }
template<typename T, typename X> static void num(X x, const char* how) { res.add(show(x), std::string(name_of<T>()) + ", " + how); }
template<typename F> static void each(F f) {       // operand types
    f(float{}); f(double{}); f(int{}); f(short{}); f((signed char)0); f(unsigned{}); f(long{});
}
static bool in_range(const std::vector<long>& v, bool (*f)(long, long)) { return std::all_of(v.begin(), v.end(), [&](long x) { return f(x, x); }); }
static long quarter(long s, std::size_t i) { return (s + 3 * long(i + 1)) % 7 - 1; }

template<typename T> static T arg(const std::string& op, long s) { return op == "mulall" || op == "divall" ? unscaled<T>(s) : scaled<T>(s); }

template<typename T> static void run(const Case& c) {
    if(!fits<T>(c.lo, c.hi)) return;
    const bool fp = std::is_floating_point_v<T>;
    const auto& op = c.op;
    if constexpr(std::is_same_v<T, bool>) {
        if(op == "construct" || op == "compare" || op == "get" || op == "set" || op == "fill") ; else return;
    }
    const V<T> a = in<T>(c.a);
#define BINARY(name, o)                                                                                              \
    if(op == name) {                                                                                                 \
        const V<T> b = in<T>(c.b);                                                                                   \
        put<T>(a o b, "a " #o " b"); { V<T> x = a; V<T>& r = (x o##= b); put<T>(&r == &x ? x : V<T>{}, "a " #o "= b"); } \
        each([&](auto u) { using U = decltype(u); if(in_range(c.b, fits<U>)) { const Vector<U, N> b = in<U>(c.b); put<T>(a o b, "a " #o " b of another type"); V<T> x = a; x o##= b; put<T>(x, "a " #o "= b of another type"); } }); \
        return;                                                                                                      \
    }                                                                                                                \
    if(op == name "all") {                                                                                           \
        if(#o[0] == '*') { const V<T> a = plain<T>(c.a); const T s = scaled<T>(c.s); put<T>(a o s, "a " #o " scaled s"); V<T> x = a; x o##= s; put<T>(x, "a " #o "= scaled s"); }                                                                                           \
        const T s = arg<T>(op, c.s);                                                                                  \
        put<T>(a o s, "a " #o " s"); { V<T> x = a; V<T>& r = (x o##= s); put<T>(&r == &x ? x : V<T>{}, "a " #o "= s"); } \
        each([&](auto u) { using U = decltype(u); if(fits<U>(c.s, c.s)) { const U s = arg<U>(op, c.s); put<T>(a o s, "a " #o " s of another type"); V<T> x = a; x o##= s; put<T>(x, "a " #o "= s of another type"); } }); \
        return;                                                                                                      \
    }
    if constexpr(!std::is_same_v<T, bool>) {
        BINARY("add", +) BINARY("sub", -) BINARY("mul", *) BINARY("div", /)
        if(op == "dot") return num<T>(dot(a, in<T>(c.b)), "dot");
        if(op == "face") { if(std::is_unsigned_v<T> || shift && !std::is_floating_point_v<T>) return; return put<T>(faceforward(a, in<T>(c.b), a), "faceforward with the incident second"), put<T>(faceforward(a, a, in<T>(c.b)), "faceforward with the normal second"); }
        if(op == "reflect") return put<T>(reflect(a, plain<T>(c.b)), "reflect");
        if constexpr(N == 3) if(op == "cross") return put<T>(cross(a, in<T>(c.b)), "cross");
        if(op == "distance") { if constexpr(std::is_floating_point_v<T>) num<T>(distance(a, in<T>(c.b)), "distance"), num<T>(distance(in<T>(c.b), a), "distance back"); return; }
        if(op == "length") { if(!shift || std::is_floating_point_v<T>) num<T>(a.length(), "member length"); if constexpr(std::is_floating_point_v<T>) num<T>(length(a), "length"); return; }
        if(op == "unit") { if constexpr(std::is_floating_point_v<T>) put<T>(a.normalize() * 8, "member normalize"), put<T>(normalize(a) * 8, "normalize"); return; }
        if(op == "neg") { if(!std::is_unsigned_v<T>) put<T>(-a, "-a"); return; }
        if constexpr(std::is_signed_v<T>) if(op == "sign") return put<T>(sign(a), "sign");
        if(op == "sign") return;
        if constexpr(std::is_floating_point_v<T>) {
            const V<T> b = c.b.size() != N ? a : in<T>(c.b);
            if(op == "lerp") {
                put<T>(lerp(a, b, T(c.s) / 4), "lerp"); put<T>(lerp(a, b, float(c.s) / 4), "lerp by float"); put<T>(lerp(a, b, double(c.s) / 4), "lerp by double"); put<T>(mix(a, b, T(c.s) / 4), "mix");
                if(c.s % 4 == 0) put<T>(lerp(a, b, int(c.s / 4)), "lerp by int");
                if(c.s == 0 || c.s == 4) put<T>(lerp(a, b, c.s == 4), "lerp by bool"), put<T>(mix(a, b, c.s == 4), "mix by bool");
                return;
            }
            if(op == "lerpv") {
                V<T> p; V<double> q; for(std::size_t i = 0; i < N; ++i) { const T x = T(quarter(c.s, i)) / 4; const double y = double(x); std::memcpy((char*)&p + i * sizeof(T), &x, sizeof x); std::memcpy((char*)&q + i * 8, &y, 8); }
                return put<T>(lerp(a, b, p), "lerp by vector"), put<T>(lerp(a, b, q), "lerp by double vector"), put<T>(mix(a, b, p), "mix by vector");
            }
            if(op == "lerpb") {
                std::vector<long> q; for(std::size_t i = 0; i < N; ++i) q.push_back((long(i) + 1 + c.s) % 3 != 0);
                return put<T>(lerp(a, b, plain<bool>(q)), "lerp by bools"), put<T>(lerp(a, b, plain<int>(q)), "lerp by ints"), put<T>(mix(a, b, plain<bool>(q)), "mix by bools");
            }
        }
        if(op == "selfadd") { V<T> x = a; x += x; put<T>(x, "a += a"); put<T>(a + a, "a + a"); return; }
        if(op == "selfsub") { V<T> x = a; x -= x; put<T>(x, "a -= a"); put<T>(a - a, "a - a"); return; }
        if(op == "selfmul") { V<T> x = a; x *= x; put<T>(x, "a *= a"); put<T>(a * a, "a * a"); return; }
        if(op == "selfdiv") { V<T> x = a; x /= x; put<T>(x, "a /= a"); put<T>(a / a, "a / a"); return; }
        if(op == "addown") { V<T> x = a; x += x[c.b[0]]; put<T>(x, "a += a[i]"); put<T>(a + a[c.b[0]], "a + a[i]"); return; }
        if(op == "mulown") { V<T> x = a; x *= x[c.b[0]]; put<T>(x, "a *= a[i]"); put<T>(a * a[c.b[0]], "a * a[i]"); return; }
    }
    if(op == "compare") {
        const V<T> b = in<T>(c.b);
        auto o = a <=> b; int s = o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2;
        if((a == b) == (a != b) || (a == b) != (b == a) || (a < b) != (s < 0) || (a > b) != (s == 1) || (a <= b) != (s <= 0) || (a >= b) != (s == 0 || s == 1)) res.add("inconsistent", name_of<T>());
        else res.add(std::to_string(a == b) + " " + std::to_string(s), name_of<T>());
        return;
    }
    if(op == "get") {
        num<T>(a[c.b[0]], "const []"); { V<T> x = a; num<T>(x[c.b[0]], "[]"); }
        if constexpr(N == 2) { const T m[] = {a.x, a.y}; num<T>(m[c.b[0]], "member"); }
        if constexpr(N == 3) { const T m[] = {a.x, a.y, a.z}; num<T>(m[c.b[0]], "member"); }
        if constexpr(N == 4) { const T m[] = {a.x, a.y, a.z, a.w}; num<T>(m[c.b[0]], "member"); }
        return;
    }
    if(op == "set") { V<T> x = a; x[c.b[0]] = scaled<T>(c.s); put<T>(x, "a[i] = s"); return; }
    if(op == "fill") {
        put<T>(V<T>(scaled<T>(c.s)), "Vector(s)");
        if constexpr(!std::is_same_v<T, bool>) each([&](auto u) { using U = decltype(u); if(fits<U>(c.s, c.s)) put<T>(V<T>(scaled<U>(c.s)), "Vector(s of another type)"); });
        return;
    }
    if(op == "construct") {
        std::array<T, N> t; for(std::size_t i = 0; i < N; ++i) t[i] = scaled<T>(c.a[i]);
        put<T>(a, "bytes"); { V<T> x(a); put<T>(x, "copy"); V<T> y{}; y = x; put<T>(y, "copy assignment"); V<T> z(x); put<T>(z, "copy of non-const"); }
        if constexpr(N > 1) std::apply([&](auto... x) { put<T>(V<T>(x...), "components"); put<T>(V<T>{x...}, "components in braces"); if constexpr(!std::is_same_v<T, bool>) { put<T>(V<T>((long double)x...), "components of another type"); if(!shift && !special) put<T>(V<T>((long)x...), "components of another type"); } }, t);
        if constexpr(N > 1) std::apply([&](auto... x) { Vector v(x...); static_assert(std::is_same_v<decltype(v), V<T>>); put<T>(v, "deduced"); }, t);
        auto from = [&](auto u) {
            using U = decltype(u); if(!in_range(c.a, fits<U>)) return;
            const Vector<U, N> w = in<U>(c.a);
            put<T>(V<T>(w), "conversion"); { V<T> x{}; V<T>& r = (x = w); put<T>(&r == &x ? x : V<T>{}, "assignment from another type"); }
            auto sub = [&](std::size_t i, auto k) { Vector<U, decltype(k)::value> s; std::memcpy(&s, (const char*)&w + i * sizeof(U), sizeof s); return s; };
            [[maybe_unused]] constexpr std::integral_constant<std::size_t, 2> two{}; [[maybe_unused]] constexpr std::integral_constant<std::size_t, 3> three{};
            if constexpr(N == 3) { put<T>(V<T>(t[0], sub(1, two)), "scalar, vector 2"); put<T>(V<T>(sub(0, two), t[2]), "vector 2, scalar"); }
            if constexpr(N == 4) {
                put<T>(V<T>(t[0], t[1], sub(2, two)), "scalar, scalar, vector 2"); put<T>(V<T>(t[0], sub(1, two), t[3]), "scalar, vector 2, scalar"); put<T>(V<T>(sub(0, two), t[2], t[3]), "vector 2, scalar, scalar");
                put<T>(V<T>(sub(0, two), sub(2, two)), "vector 2, vector 2"); put<T>(V<T>(sub(0, two), Vector<T, 2>(t[2], t[3])), "vector 2, vector 2 of another type"); put<T>(V<T>(Vector<T, 2>(t[0], t[1]), sub(2, two)), "vector 2 of another type, vector 2");
                put<T>(V<T>(t[0], sub(1, three)), "scalar, vector 3"); put<T>(V<T>(sub(0, three), t[3]), "vector 3, scalar");
            }
        };
        from(T{}); if constexpr(!std::is_same_v<T, bool>) each(from);
        return;
    }
}
static_assert(std::is_same_v<vec2, Vector<float, 2>> && std::is_same_v<vec3, Vector<float, 3>> && std::is_same_v<vec4, Vector<float, 4>> && std::is_same_v<dvec2, Vector<double, 2>> && std::is_same_v<dvec3, Vector<double, 3>> && std::is_same_v<dvec4, Vector<double, 4>>
    && std::is_same_v<ivec2, Vector<std::int32_t, 2>> && std::is_same_v<ivec3, Vector<std::int32_t, 3>> && std::is_same_v<ivec4, Vector<std::int32_t, 4>> && std::is_same_v<uvec2, Vector<std::uint32_t, 2>> && std::is_same_v<uvec3, Vector<std::uint32_t, 3>> && std::is_same_v<uvec4, Vector<std::uint32_t, 4>>
    && std::is_same_v<bvec2, Vector<bool, 2>> && std::is_same_v<bvec3, Vector<bool, 3>> && std::is_same_v<bvec4, Vector<bool, 4>>);
#if VP_N == 3
static_assert(cross(vec3(1, 0, 0), vec3(0, 1, 0)) == vec3(0, 0, 1) && (ivec3(1, 2, 3) * 2 + ivec3(1, 1, 1)).y == 5 && ivec3(1, ivec2(2, 3)) == ivec3(ivec2(1, 2), 3) && -ivec3(1, 2, 3) == ivec3(-1, -2, -3));
#endif
int main() {
    Script s;
    while(s.next()) {
        if(s.op() == "end") break;
        if(s.op() == "reset") { std::puts("ok"); continue; }
        const Case c(s);
        res.r.clear();
        degree = c.deg;
        for(int k : {0, -3, 33}) { shift = k; run<float>(c); run<double>(c); run<long double>(c); run<int>(c); run<long>(c); run<short>(c); run<signed char>(c); run<unsigned>(c); run<unsigned char>(c); run<bool>(c); }
        std::puts(res.text().c_str());
    }
    std::puts("bye");
}
