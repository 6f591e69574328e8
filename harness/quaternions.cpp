// Quaternion operations (spec/Quaternions) for all component types; prints the distinct results of a case.
#include <xme/math/quaternion.hpp>         // first: it has to stand alone
#include "num.hpp"
#include <xme/math/math.hpp>
using namespace vp;
using namespace xme::math;
static Results res;
template<typename T> using Q = Quaternion<T>;
template<typename T> static Q<T> in(const std::vector<long>& c) {
    static_assert(sizeof(Q<T>) == 4 * sizeof(T) && std::is_trivially_copyable_v<Q<T>>);
    return Q<T>(scaled<T>(c[0]), scaled<T>(c[1]), scaled<T>(c[2]), scaled<T>(c[3]));
}
template<typename T> static std::string out(const Q<T>& q) { return show(q.w) + " " + show(q.x) + " " + show(q.y) + " " + show(q.z); }
template<typename X, typename T> static void put(const Q<T>& q, const char* how) { static_assert(std::is_same_v<X, T>); res.add(out(q), std::string(name_of<T>()) + ", " + how); }
template<typename T> static void num(T x, const char* how) { res.add(show(x), std::string(name_of<T>()) + ", " + how); }
template<typename F> static void each(F f) { f(float{}); f(double{}); f((long double)0); }
template<typename U> static bool all_fit(const std::vector<long>& v) { return std::all_of(v.begin(), v.end(), [&](long x) { return fits<U>(x, x); }); }
template<typename T> static void run(const Case& c) {
    if(!fits<T>(c.lo, c.hi)) return;
    const Q<T> a = in<T>(c.a);
    const auto& op = c.op;
#define BINARY(name, o)                                                                                      \
    if(op == name) {                                                                                         \
        put<T>(a o in<T>(c.b), "a " #o " b");                                                                \
        return each([&](auto u) { using U = decltype(u); if(all_fit<U>(c.b)) put<T>(a o in<U>(c.b), "a " #o " b of another type"); }); \
    }
    BINARY("add", +) BINARY("sub", -) BINARY("mul", *)
    if(op[0] == 'w') {                          // the right operand needs more digits than the left one has
        if constexpr(std::is_same_v<T, float>)
            each([&](auto u) {
                using U = decltype(u);
                if constexpr(sizeof(U) > sizeof(T)) put<T>(op == "wadd" ? a + in<U>(c.b) : op == "wsub" ? a - in<U>(c.b) : a * in<U>(c.b), "b of a more precise type");
            });
        return;
    }
    if(op == "selfadd") return put<T>(a + a, "a + a");
    if(op == "selfmul") return put<T>(a * a, "a * a");
    if(op == "compare") {
        const Q<T> b = in<T>(c.b);
        auto o = a <=> b; int s = o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2;
        if((a == b) == (a != b) || (a == b) != (b == a) || (a < b) != (s < 0) || (a > b) != (s == 1) || (a <= b) != (s <= 0) || (a >= b) != (s == 0 || s == 1)) res.add("inconsistent", name_of<T>());
        else res.add(std::to_string(a == b) + " " + std::to_string(s), name_of<T>());
        return;
    }
    if(op == "get") {
        num(a[c.b[0]], "const []"); Q<T> x = a; num(x[c.b[0]], "[]");
        const T m[] = {a.w, a.x, a.y, a.z}; return num(m[c.b[0]], "member");
    }
    if(op == "set") {
        Q<T> x = a; x[c.b[0]] = scaled<T>(c.s); put<T>(x, "a[i] = s");
        Q<T> y = a; T* m[] = {&y.w, &y.x, &y.y, &y.z}; *m[c.b[0]] = scaled<T>(c.s); return put<T>(y, "member = s");
    }
    if(op == "construct") {
        put<T>(a, "components"); Q<T> x(a); put<T>(x, "copy"); Q<T> y{}; y = a; put<T>(y, "assignment"); put<T>(Q<T>(std::move(x)), "move");
        const T t[] = {scaled<T>(c.a[0]), scaled<T>(c.a[1]), scaled<T>(c.a[2]), scaled<T>(c.a[3])};
        put<T>(Q<T>{t[0], t[1], t[2], t[3]}, "braces"); { Quaternion d(t[0], t[1], t[2], t[3]); put<T>(d, "deduced"); }
        if(all_fit<float>(c.a)) put<T>(Q<T>(scaled<float>(c.a[0]), scaled<double>(c.a[1]), scaled<float>(c.a[2]), (long double)scaled<double>(c.a[3])), "components of mixed types");
        { Quaternion d(scaled<double>(c.a[0]), scaled<T>(c.a[1]), t[2], scaled<float>(c.a[3])); if(all_fit<float>({c.a[3]})) put<std::common_type_t<double, T>>(d, "deduced from mixed types"); }
        if(!shift && !special) { put<T>(Q<T>(c.a[0], (int)c.a[1], (short)0 + (int)c.a[2], c.a[3]), "integers"); Quaternion d((int)c.a[0], (int)c.a[1], (int)c.a[2], (int)c.a[3]); if(all_fit<float>(c.a)) put<float>(d, "deduced from integers"); }
        return;
    }
}
static_assert(Quaternion(0.f, 1.f, 0.f, 0.f) * Quaternion(0.f, 0.f, 1.f, 0.f) == Quaternion(0.f, 0.f, 0.f, 1.f) && (Quaternion(1., 2., 3., 4.) - Quaternion(1, 1, 1, 1)).z == 3);
int main() {
    Script s;
    while(s.next()) {
        if(s.op() == "end") break;
        if(s.op() == "reset") { std::puts("ok"); continue; }
        const Case c(s);
        res.r.clear();
        degree = c.deg;
        for(int k : {0, -3, 33}) { shift = k; run<float>(c); run<double>(c); run<long double>(c); }
        std::puts(res.text().c_str());
    }
    std::puts("bye");
}
