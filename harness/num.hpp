// Exact numbers for the algebra harnesses: cases are made of integers, results are printed exactly.
#pragma once
#include "track.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <limits>
#include <map>
#include <utility>
namespace vp {
// The numbers of a case stand for themselves or, as every operation is homogeneous, for multiples of 2^shift.
inline int shift = 0, degree = 0;
// An operation named x... has operands 7001, 7002, 7003 that stand for the infinities and not-a-number.
inline bool special = false;
template<typename T> T exotic(long x) { return x == 7001 ? std::numeric_limits<T>::infinity() : x == 7002 ? -std::numeric_limits<T>::infinity() : x == 7003 ? std::numeric_limits<T>::quiet_NaN() : T(x); }
template<typename T> T unscaled(long x) { if constexpr(std::is_floating_point_v<T>) if(special) return exotic<T>(x); return T(x); }
template<typename T> T scaled(long x) {
    if constexpr(std::is_floating_point_v<T>) return std::ldexp(unscaled<T>(x), shift);
    else if constexpr(std::is_same_v<T, bool>) return x;
    else return T(x * (1L << shift));
}
template<typename T> bool fits(long lo, long hi) {
    if(special && !std::is_floating_point_v<T>) return false;
    if(shift && !std::is_floating_point_v<T> && !(std::is_same_v<T, long> && shift > 0 && degree <= 1 && lo > -(1L << 29) && hi < 1L << 29)) return false;
    if constexpr(std::is_same_v<T, float>) return lo >= -(1L << 24) && hi <= 1L << 24;
    else if constexpr(std::is_floating_point_v<T>) return lo >= -(1L << 53) && hi <= 1L << 53;
    else if constexpr(std::is_same_v<T, bool>) return lo >= 0 && hi <= 1;
    else if constexpr(std::is_unsigned_v<T>) return lo >= 0 && (sizeof(T) >= 8 || hi <= long(std::numeric_limits<T>::max()));
    else return lo >= long(std::numeric_limits<T>::min()) && hi <= long(std::numeric_limits<T>::max());
}
template<typename T> std::string show(T x) {
    if constexpr(std::is_same_v<T, long>) if(shift) return x % (1L << shift * degree) ? std::to_string(x) + " unscaled" : std::to_string(x >> shift * degree);
    if constexpr(std::is_floating_point_v<T>) {
        if(x != x) return "nan";
        x = std::ldexp(x, -shift * degree);
        if(x == std::nearbyint(x) && std::abs(x) < 1e15) return std::to_string((long)x);
        char b[64]; std::snprintf(b, sizeof b, "%.21Lg", (long double)x); return b;
    }
    else return std::to_string((long)x);
}
// the distinct results of one case, each with a way to get it
struct Results {
    std::map<std::string, std::string> r;
    void add(const std::string& v, const std::string& how) { r.emplace(v, how); }
    std::string text() const {
        if(r.empty()) return "none";
        if(r.size() == 1) return r.begin()->first;
        std::string o; for(auto& [v, h] : r) o += v + " (" + h + ") "; return o;
    }
};
struct Case {
    std::string op; long lo, hi, deg, s; std::vector<long> a, b;
    explicit Case(const Script& in) : op(in.op()), lo(in.num(1)), hi(in.num(2)), deg(in.num(3)), s(in.num(4)) {
        std::size_t i = 5; long n = in.num(i++);
        while(n-- > 0) a.push_back(in.num(i++));
        n = in.num(i++);
        while(n-- > 0) b.push_back(in.num(i++));
        special = op[0] == 'x';
        if(special) op.erase(0, 1);
    }
};
template<typename T> constexpr const char* name_of() {
    if(std::is_same_v<T, float>) return "float";
    if(std::is_same_v<T, double>) return "double";
    if(std::is_same_v<T, long double>) return "long double";
    if(std::is_same_v<T, int>) return "int";
    if(std::is_same_v<T, long>) return "long";
    if(std::is_same_v<T, short>) return "short";
    if(std::is_same_v<T, signed char>) return "signed char";
    if(std::is_same_v<T, unsigned>) return "unsigned";
    if(std::is_same_v<T, unsigned char>) return "unsigned char";
    if(std::is_same_v<T, bool>) return "bool";
    return "?";
}
}
