// Runs xme::find on one case for many element types, placements and ranges; prints the distinct results.
// case: n p e q   (see spec/Search.tla); arg 1: "never" if the needle equals nothing
#include "track.hpp"
#include <array>
#include <cmath>
#include <deque>
#include <forward_list>
#include <limits>
#include <list>
#include <map>
#include <span>
#include <sys/mman.h>
#include <xme/core/algorithm/find.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/array.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>
using namespace vp;

enum Class { EQ, EQV, NE, BYTES };
static std::vector<Class> cells;
static std::map<long, std::string> results;
static void result(long r, const char* type, const char* how) { results.emplace(r, std::string(type) + "/" + how); }

using Bits = unsigned __int128;
constexpr Bits pattern = Bits(0x93e5'0f77'2bc4'1a06ULL) << 64 | 0x8051'a37e'1c04'80ffULL;
template<typename T> static T bits(Bits v) { T t; std::memcpy(&t, &v, sizeof t); return t; }
// ---- element types: the needle, and cells of each class
template<typename T> struct Make {                      // integers, enumerations, pointers: equality of all bits
    static T needle() { return bits<T>(pattern); }
    static T cell(Class c, int i) {
        auto n = pattern;
        if(c == NE) { if(i % 5 == 4) n = i; else n ^= Bits(1) << (i * 7 % (8 * sizeof(T))); if(bits<T>(n) == needle()) n ^= 1; }
        return bits<T>(n);
    }
};
template<typename T> struct MakeFloat {                 // 0.0 and -0.0 are equal
    static T needle() { return T(0); }
    static T cell(Class c, int i) { return c == EQ ? T(0) : c == EQV ? -T(0) : i % 3 == 0 ? std::numeric_limits<T>::denorm_min() : i % 3 == 1 ? std::numeric_limits<T>::quiet_NaN() : T(i + 1); }
};
template<> struct Make<float> : MakeFloat<float> {};
template<> struct Make<double> : MakeFloat<double> {};
template<> struct Make<long double> : MakeFloat<long double> {};
template<typename T> struct Nan {
    static T needle() { return std::numeric_limits<T>::quiet_NaN(); }
    static T cell(Class c, int i) { return c == BYTES ? needle() : T(i); }
};
template<> struct Make<bool> { static bool needle() { return true; } static bool cell(Class c, int) { return c != NE; } };
template<typename K, typename X> struct Loose {         // equal if the keys are
    K key; X rest;
    friend bool operator==(const Loose& a, const Loose& b) { return a.key == b.key; }
};
template<typename K, typename X> struct Make<Loose<K, X>> {
    static X x(int i) { if constexpr(std::is_arithmetic_v<X>) return X(i); else return X(i, 'x'); }
    static Loose<K, X> needle() { return {K(77), x(5)}; }
    static Loose<K, X> cell(Class c, int i) { return c == EQ ? Loose<K, X>{K(77), x(5)} : c == EQV ? Loose<K, X>{K(77), x(9 + i)} : Loose<K, X>{K(77 ^ (1 << i % 6)), x(5)}; }
};
struct Mod { unsigned char v; friend bool operator==(Mod a, Mod b) { return a.v % 16 == b.v % 16; } };
template<> struct Make<Mod> { static Mod needle() { return {7}; } static Mod cell(Class c, int i) { return c == EQ ? Mod{7} : c == EQV ? Mod{(unsigned char)(7 + 16 * (1 + i % 15))} : Mod{(unsigned char)(i % 7 + 16 * (i % 16))}; } };
struct Mod4 { int v; friend bool operator==(Mod4 a, Mod4 b) { return a.v % 16 == b.v % 16; } };
template<> struct Make<Mod4> { static Mod4 needle() { return {7}; } static Mod4 cell(Class c, int i) { return c == EQ ? Mod4{7} : c == EQV ? Mod4{7 + 16 * (1 + i % 15)} : Mod4{i % 7}; } };
enum E1 : unsigned char {}; enum class E2 : std::int16_t {}; enum E4 : std::uint32_t {}; enum class E8 : std::int64_t {};
struct Fn8 { long v; bool operator==(const Fn8&) const = default; };

static char* region; constexpr std::size_t PAGE = 4096, DATA = 32 * PAGE;
static void setup() {
    region = static_cast<char*>(mmap(nullptr, DATA + 2 * PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if(region == MAP_FAILED || mprotect(region, PAGE, PROT_NONE) || mprotect(region + PAGE + DATA, PAGE, PROT_NONE)) std::abort();
    region += PAGE;
}
template<typename T> struct Nul { T* end; friend bool operator==(T* p, Nul s) { return p == s.end; } };

template<typename M, typename T> static void at(const char* name, const char* place, char* where, std::size_t decoys_before, std::size_t decoys_after, int api) {
    const long n = long(cells.size());
    T* b = reinterpret_cast<T*>(where);
    T needle = M::needle();
    for(std::size_t i = 1; i <= decoys_before; ++i) std::memcpy((void*)(b - i), (void*)&needle, sizeof(T));
    for(long i = 0; i < n; ++i) { T t = M::cell(cells[i], int(i)); std::memcpy((void*)(b + i), (void*)&t, sizeof(T)); }
    for(std::size_t i = 0; i < decoys_after; ++i) std::memcpy((void*)(b + n + i), (void*)&needle, sizeof(T));
    const T* cb = b;
    long r = -1;
    switch(api) {
    case 0: r = xme::find(b, b + n, needle) - b; break;
    case 1: r = xme::find(cb, cb + n, needle) - cb; break;
    case 2: { std::span<const T> s(cb, n); r = xme::find(s, needle) - s.begin(); break; }
    case 3: { xme::ArrayView<T> v(b, n); r = xme::find(v, needle) - v.begin(); break; }
    case 4: r = xme::find<std::execution::sequenced_policy>(cb, cb + n, needle) - cb; break;
    case 5: r = xme::find(cb, Nul<const T>{cb + n}, needle) - cb; break;
    case 6: r = xme::find<std::execution::parallel_unsequenced_policy>(b, b + n, needle) - b; break;
    }
    result(r, name, place);
}
template<typename T, typename M = Make<T>> static void everywhere(const char* name, int salt) {
    const std::size_t n = cells.size(), bytes = n * sizeof(T);
    const int api = int((n + salt) % 7);
    at<M, T>(name, "end at a guard page", region + DATA - bytes, 8, 0, api);
    at<M, T>(name, "start at a guard page", region, 0, 8, (api + 1) % 7);
    const std::size_t off = 256 + (n * 5 + salt * 11) % 64 / alignof(T) * alignof(T);
    at<M, T>(name, "inside", region + off, 8, 8, salt % 3 ? 0 : (api + 2) % 7);
}
template<typename It, typename S> static long count(It i, S s) { long k = 0; for(; i != s; ++i) ++k; return k; }
template<typename T, typename M = Make<T>> static void containers(const char* name) {
    std::vector<T> v; for(std::size_t i = 0; i < cells.size(); ++i) v.push_back(M::cell(cells[i], int(i)));
    const T needle = M::needle();
    result(xme::find(v, needle) - v.begin(), name, "vector");
    { std::list<T> l(v.begin(), v.end()); result(long(cells.size()) - count(xme::find(l, needle), l.end()), name, "list"); }
    { std::forward_list<T> l(v.begin(), v.end()); result(long(cells.size()) - count(xme::find(l.begin(), l.end(), needle), l.end()), name, "forward_list"); }
    { std::deque<T> d(v.begin(), v.end()); result(xme::find(d, needle) - d.begin(), name, "deque"); }
    { xme::Array<T> a; for(auto& x : v) a.push_back(x); result(xme::find(a, needle) - a.begin(), name, "Array"); result(xme::find(std::as_const(a).begin(), std::as_const(a).end(), needle) - std::as_const(a).begin(), name, "const Array"); }
    { std::vector<T> w(v.rbegin(), v.rend()); result(xme::find(w.rbegin(), w.rend(), needle) - w.rbegin(), name, "backwards");
      using R = xme::ReverseIterator<typename std::vector<T>::iterator>; result(xme::find(R(w.end()), R(w.begin()), needle) - R(w.end()), name, "ReverseIterator"); }
}
#ifdef __GNUC__
// in constant expressions
template<typename T, std::size_t N> constexpr bool in_constant(std::size_t p) { std::array<T, N> a{}; if(p < N) { a[p] = T(3); if(p + 1 < N) a[p + 1] = T(3); } return std::size_t(xme::find(a.begin(), a.end(), T(3)) - a.begin()) == p; }
static_assert(in_constant<char, 5>(2) && in_constant<char, 70>(69) && in_constant<char, 70>(70) && in_constant<int, 40>(17) && in_constant<long, 9>(9) && in_constant<short, 33>(0));
#endif

int main(int, char** argv) {
    Script s;
    setup();
    const bool never = std::string(argv[1]) == "never";
    while(s.next()) {
        if(s.op() == "end") break;
        if(s.op() == "reset") { std::puts("ok"); continue; }
        const long n = s.num(0), p = s.num(1); const std::string e = s.tok[2], q = s.tok[3];
        cells.assign(n, never ? BYTES : NE);
        for(long i = p; i < n; ++i)
            cells[i] = i == p ? (e == "eq" ? EQ : EQV) : (q == "next" && i == p + 1) || (q == "last" && i == n - 1) || q == "all" ? EQ : q == "other" && i % 2 == 1 ? EQV : NE;
        results.clear();
        const int t = int(p + q.size());
        if(never) { everywhere<float, Nan<float>>("float NaN", t); everywhere<double, Nan<double>>("double NaN", t + 1); containers<float, Nan<float>>("float NaN"); }
        else {
            everywhere<char>("char", t); everywhere<std::uint8_t>("uint8", t + 1); everywhere<std::int8_t>("int8", t + 2); everywhere<char8_t>("char8", t + 3); everywhere<bool>("bool", t + 4); everywhere<E1>("enum 1", t + 5);
            everywhere<std::int16_t>("int16", t + 1); everywhere<std::uint16_t>("uint16", t + 2); everywhere<char16_t>("char16", t + 3); everywhere<E2>("enum 2", t + 4);
            everywhere<std::int32_t>("int32", t + 2); everywhere<std::uint32_t>("uint32", t + 3); everywhere<E4>("enum 4", t + 4); everywhere<wchar_t>("wchar_t", t + 5);
            everywhere<std::int64_t>("int64", t + 3); everywhere<std::uint64_t>("uint64", t + 4); everywhere<void*>("void*", t + 5); everywhere<const int*>("const int*", t + 6); everywhere<E8>("enum 8", t + 7);
            everywhere<float>("float", t + 4); everywhere<double>("double", t + 5); everywhere<long double>("long double", t + 6);
            everywhere<Mod>("1-byte class", t + 5); everywhere<Mod4>("4-byte class", t + 6); everywhere<Loose<char, char>>("2-byte class", t + 7); everywhere<Loose<int, int>>("8-byte class", t + 8);
            everywhere<Loose<short, int>>("padded class", t + 9); everywhere<Loose<long, long>>("16-byte class", t + 1); everywhere<Fn8>("8-byte class with bytewise equality", t + 2);
            everywhere<__int128>("int128", t + 2);
            if(n <= 40) { containers<int>("int"); containers<char>("char"); containers<float>("float"); containers<Loose<int, std::string>>("class with string"); }
            if(n <= 20) { std::vector<int> v; for(long i = 0; i < n; ++i) v.push_back(Make<int>::cell(cells[i], int(i)));
                std::vector<bool> vb; for(long i = 0; i < n; ++i) vb.push_back(cells[i] != NE);
                result(xme::find(vb, true) - vb.begin(), "bool", "vector<bool>");
                using In = InputIt<int, false>; typename In::Src src{&v};
                auto r = xme::find(In{&src}, typename In::Sent{}, Make<int>::needle()); long k = 0; for(; r != typename In::Sent{}; ++r) ++k; result(n - k, "int", "single-pass range"); }
        }
        std::string out;
        if(results.size() == 1) out = std::to_string(results.begin()->first);
        else for(auto& [r, l] : results) out += std::to_string(r) + " (" + l + ") ";
        std::puts(out.c_str()); std::fflush(stdout);
    }
    std::puts("bye");
}
