// Evaluates xme::has_single_bit, to_unsigned, math::sign and forward_like.
// Lines: single|unsigned|sign <type> <set bit positions...> | like <k> <model const> <argument lvalue?> <argument const>
#include "track.hpp"
#include <limits>
#include <xme/core/bit/has_single_bit.hpp>
#include <xme/core/utility/forward_like.hpp>
#include <xme/core/utility/to_unsigned.hpp>
#include <xme/math/scalars/functions.hpp>
using namespace vp;

template<typename T> constexpr int width = sizeof(T) * 8;
// the number whose two's complement has the given bits; built without conversions between signed and unsigned
template<typename T> T number(const std::vector<int>& bits) {
    T r = 0;
    bool neg = false;
    for(int b : bits) {
        if(T(-1) < T(0) && b == width<T> - 1) { neg = true; continue; }
        T p = 1;
        for(int i = 0; i < b; ++i) p = T(p * 2);
        r = T(r + p);
    }
    if(neg) {
        T least = -1;
        for(int i = 0; i < width<T> - 1; ++i) least = T(least * 2);
        r = T(r + least);
    }
    return r;
}
template<typename U> std::string positions(U u, int w) {
    if(width<U> != w) return "width " + std::to_string(width<U>);
    if(!(U(-1) > U(0))) return "signed";
    std::string s;
    for(int i = 0; i < w; ++i) { if(u % 2 != 0) s += (s.empty() ? "" : " ") + std::to_string(i); u = U(u / 2); }
    return s;
}
template<typename T> struct Same { using type = T; };
enum class E8 : signed char {};
enum class E32 : int {};
enum class EU16 : unsigned short {};
enum Old : long {};
template<typename T, typename N = T> struct Ask {
    static std::string single(const std::vector<int>& b) {
        if constexpr(std::is_unsigned_v<T>) { const auto r = xme::has_single_bit(number<T>(b)); return r == true ? "1" : r == false ? "0" : "neither"; }
        else return "none";
    }
    static std::string uns(const std::vector<int>& b) {
        const T t = static_cast<T>(number<N>(b));
        if constexpr(requires { xme::to_unsigned(t); }) return positions(xme::to_unsigned(t), width<T>);
        else return "none";
    }
    static std::string sign(const std::vector<int>& b) {
        if constexpr(std::is_integral_v<T> && std::is_signed_v<T>) {
            auto r = xme::math::sign(number<T>(b));
            static_assert(std::is_same_v<decltype(r), T>);
            return r == T(-1) ? "-1" : r == T(0) ? "0" : r == T(1) ? "1" : "other";
        }
        else return "none";
    }
};
template<typename F> std::string pick(const std::string& t, F f) {
    if(t == "uc") return f(Ask<unsigned char>{});
    if(t == "sc") return f(Ask<signed char>{});
    if(t == "c") return f(Ask<char>{});
    if(t == "c8") return f(Ask<char8_t>{});
    if(t == "us") return f(Ask<unsigned short>{});
    if(t == "s") return f(Ask<short>{});
    if(t == "c16") return f(Ask<char16_t>{});
    if(t == "ui") return f(Ask<unsigned>{});
    if(t == "i") return f(Ask<int>{});
    if(t == "c32") return f(Ask<char32_t>{});
    if(t == "wc") return f(Ask<wchar_t>{});
    if(t == "ul") return f(Ask<unsigned long>{});
    if(t == "l") return f(Ask<long>{});
    if(t == "ull") return f(Ask<unsigned long long>{});
    if(t == "ll") return f(Ask<long long>{});
    if(t == "e8") return f(Ask<E8, signed char>{});
    if(t == "e32") return f(Ask<E32, int>{});
    if(t == "eu16") return f(Ask<EU16, unsigned short>{});
    if(t == "old") return f(Ask<Old, long>{});
    if(t == "u128") return f(Ask<unsigned __int128>{});
    if(t == "i128") return f(Ask<__int128>{});
    return "none";
}
// every value of a small type, as runs of equal results
template<typename T, typename F> std::string sweep(F f) {
    std::string s;
    long a = std::numeric_limits<T>::min(), n = std::numeric_limits<T>::max(), from = a, last = f(T(a));
    for(long v = a + 1; v <= n + 1; ++v) {
        long r = v <= n ? f(T(v)) : 99;
        if(r != last) { s += (s.empty() ? "" : " ") + std::to_string(from) + ".." + std::to_string(v - 1) + "=" + std::to_string(last); from = v; last = r; }
    }
    return s;
}
template<typename T> std::string real(const std::string& k) {
    using L = std::numeric_limits<T>;
    T v = k == "inf" ? L::infinity() : k == "max" ? L::max() : k == "min" ? L::min() : k == "denorm" ? L::denorm_min() : k == "one" ? T(1) : k == "eps" ? L::epsilon() : k == "zero" ? T(0)
        : k == "-inf" ? -L::infinity() : k == "-max" ? L::lowest() : k == "-min" ? -L::min() : k == "-denorm" ? -L::denorm_min() : k == "-one" ? T(-1) : k == "-eps" ? -L::epsilon() : -T(0);
    auto r = xme::math::sign(v);
    static_assert(std::is_same_v<decltype(r), T>);
    return r == T(-1) ? "-1" : r == T(0) ? "0" : r == T(1) ? "1" : "other";
}

struct Model { int m; };
struct Only { int v; Only(int x) : v(x) {} Only(const Only&) = delete; };
template<typename T, typename Like, bool Lv, bool C> std::string like() {
    T obj{3};
    using A = std::conditional_t<C, const T, T>;
    A& a = obj;
    using Arg = std::conditional_t<Lv, A&, A&&>;
    using R = decltype(xme::forward_like<Like>(static_cast<Arg>(a)));
    if(!std::is_reference_v<R>) return "a copy";
    if(!std::is_same_v<std::remove_cvref_t<R>, T>) return "another type";
    R r = xme::forward_like<Like>(static_cast<Arg>(a));
    bool c = std::is_const_v<std::remove_reference_t<R>>;
    if(reinterpret_cast<const volatile char*>(std::addressof(r)) != reinterpret_cast<const volatile char*>(std::addressof(obj))) return "another object";
    return std::string(std::is_lvalue_reference_v<R> ? "lvalue " : "rvalue ") + (c ? "1" : "0");
}
template<typename M, typename T> std::string like2(const Script& s) {
    auto arg = [&]<typename L>(Same<L>) -> std::string {
        bool lv = s.tok[4] == "lvalue", c = s.num(5);
        return lv ? c ? like<T, L, true, true>() : like<T, L, true, false>() : c ? like<T, L, false, true>() : like<T, L, false, false>();
    };
    auto model = [&]<typename L>(Same<L>) -> std::string { return s.tok[2] == "value" ? arg(Same<L>{}) : s.tok[2] == "lvalue" ? arg(Same<L&>{}) : arg(Same<L&&>{}); };
    return s.num(3) ? model(Same<const M>{}) : model(Same<M>{});
}
int main() {
    Script s;
    while(s.next()) {
        auto& op = s.op();
        if(op == "end") { std::puts("bye"); return 0; }
        std::string r = "ok";
        if(op == "single") r = pick(s.tok[1], [&](auto a) { return a.single(s.rest(2)); });
        else if(op == "unsigned") r = pick(s.tok[1], [&](auto a) { return a.uns(s.rest(2)); });
        else if(op == "sign") r = pick(s.tok[1], [&](auto a) { return a.sign(s.rest(2)); });
        else if(op == "real") r = s.tok[1] == "f" ? real<float>(s.tok[2]) : s.tok[1] == "d" ? real<double>(s.tok[2]) : real<long double>(s.tok[2]);
        else if(op == "all") {
            const auto& t = s.tok[1];
            auto one = [](auto v) { return long(xme::has_single_bit(v)); };
            auto sg = [](auto v) { return long(xme::math::sign(v)); };
            r = t == "uc" ? sweep<unsigned char>(one) : t == "us" ? sweep<unsigned short>(one) : t == "c16" ? sweep<char16_t>(one) : t == "c8" ? sweep<char8_t>(one)
              : t == "sc" ? sweep<signed char>(sg) : sweep<short>(sg);
        }
        else if(op == "like") r = s.num(1) == 0 ? like2<Model, Only>(s) : s.num(1) == 1 ? like2<int, std::string>(s) : s.num(1) == 2 ? like2<int[3], Only>(s) : like2<Only, int>(s);
        std::puts(r.c_str());
    }
}
