// Runs xme::reverse on one case for many element types, placements and ranges; prints the distinct results.
// case: n l t   (see spec/Reverse.tla)
#include "track.hpp"
#include <array>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <span>
#include <sys/mman.h>
#include <xme/core/algorithm/reverse.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/array.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>
using namespace vp;

static long N, L, T_, all;
static std::map<std::string, std::string> results;
static void result(const std::string& r, const char* type, const char* how) { results.emplace(r, std::string(type) + "/" + how); }

static char* region; constexpr std::size_t PAGE = 4096, DATA = 64 * PAGE;
static void setup() {
    region = static_cast<char*>(mmap(nullptr, DATA + 2 * PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if(region == MAP_FAILED || mprotect(region, PAGE, PROT_NONE) || mprotect(region + PAGE + DATA, PAGE, PROT_NONE)) std::abort();
    region += PAGE;
}
// ---- element types: made from the number of a cell, and back
struct Triple { unsigned char a, b, c; };
struct Big { int a[12]; };
struct Plain1 { unsigned char v; };
enum E1 : signed char {}; enum class E4 : std::int32_t {};
template<typename I> struct Placed {                     // its representation depends on its address
    I rep;
    I mask() const { return I(reinterpret_cast<std::uintptr_t>(this) * 0x9E37'79B9'7F4A'7C15ULL >> 40); }
    I get() const { return rep ^ mask(); }
    explicit Placed(I v) : rep(v ^ mask()) {}
    Placed(const Placed& o) noexcept : rep(o.get() ^ mask()) {}
    Placed& operator=(const Placed& o) noexcept { rep = o.get() ^ mask(); return *this; }
};
struct MoveOnly1 { unsigned char v; explicit MoveOnly1(unsigned char v) : v(v) {} MoveOnly1(MoveOnly1&& o) noexcept : v(o.v) { o.v = 255; }
    MoveOnly1& operator=(MoveOnly1&& o) noexcept { auto x = o.v; o.v = 255; v = x; return *this; } };
template<typename E> E make(int i) {
    if constexpr(std::is_same_v<E, Triple>) return {(unsigned char)i, (unsigned char)(255 - i), (unsigned char)(i * 3)};
    else if constexpr(std::is_same_v<E, Big>) { Big b; for(int k = 0; k < 12; ++k) b.a[k] = i * 12 + k; return b; }
    else if constexpr(std::is_same_v<E, Plain1>) return {(unsigned char)i};
    else if constexpr(std::is_same_v<E, std::string>) return i % 2 ? std::to_string(i) : std::to_string(i) + std::string(40, 'x');
    else if constexpr(std::is_same_v<E, std::unique_ptr<int>>) return std::make_unique<int>(i);
    else if constexpr(std::is_pointer_v<E>) return reinterpret_cast<E>(std::uintptr_t(i) * 8);
    else if constexpr(std::is_integral_v<E> && sizeof(E) > 1) return E((unsigned long long)(i) * 0x0101'0101'0101'0101ULL);
    else return E(i);
}
template<typename E> int value(const E& e) {
    if constexpr(std::is_same_v<E, Triple>) return e.b == 255 - e.a && e.c == (unsigned char)(e.a * 3) ? e.a : -1;
    else if constexpr(std::is_same_v<E, Big>) { for(int k = 0; k < 12; ++k) if(e.a[k] != e.a[0] + k) return -1; return e.a[0] / 12; }
    else if constexpr(requires { e.get(); e.rep; }) return (unsigned char)e.get();
    else if constexpr(requires { e.v; }) return e.v;
    else if constexpr(std::is_same_v<E, std::string>) { int i = std::stoi(e); return e == make<std::string>(i) ? i : -1; }
    else if constexpr(std::is_same_v<E, std::unique_ptr<int>>) return e ? *e : -1;
    else if constexpr(std::is_pointer_v<E>) return int(reinterpret_cast<std::uintptr_t>(e) / 8);
    else if constexpr(std::is_floating_point_v<E>) return int(e);
    else { int i = (unsigned char)e; return make<E>(i) == e ? i : -1; }
}
template<typename C, typename It> static std::string show(long ret, const C& b, It e) {
    std::string o = std::to_string(ret) + " |";
    for(auto i = b; i != e; ++i) { o += ' '; o += std::to_string(value(*i)); }
    return o;
}
template<typename T> struct End { T* end; friend bool operator==(T* p, End s) { return p == s.end; } friend std::ptrdiff_t operator-(T* p, End s) { return p - s.end; } friend std::ptrdiff_t operator-(End s, T* p) { return s.end - p; } };
template<typename T> struct EndU { T* end; friend bool operator==(T* p, EndU s) { return p == s.end; } };

template<typename T> static void at(const char* name, const char* place, char* where, int api) {
    T* b = reinterpret_cast<T*>(where);
    for(long i = 0; i < all; ++i) new(b + i) T(make<T>(int(i % 251)));
    T *f = b + L, *l = f + N;
    long r = -1;
    switch(api % 6) {
    case 0: case 5: r = xme::reverse(f, l) - b; break;
    case 1: { std::span<T> s(f, N); r = std::to_address(xme::reverse(s.begin(), s.end())) - b; break; }
    case 2: { std::span<T> s(f, N); r = L + (xme::reverse(s) - s.begin()); break; }
    case 3: r = xme::reverse(f, End<T>{l}) - b; break;
    case 4: { xme::ArrayView<T> v(f, N); r = L + (xme::reverse(v) - v.begin()); break; }
    }
    result(show(r, b, b + all), name, place);
    std::destroy_n(b, all);
}
template<typename T> static void everywhere(const char* name, int salt) {
    const std::size_t bytes = all * sizeof(T);
    at<T>(name, "end at a guard page", region + DATA - bytes, int(N + salt));
    at<T>(name, "start at a guard page", region, int(N + salt + 1));
    at<T>(name, "inside", region + 256 + (N * 7 + salt * 11) % 64 / alignof(T) * alignof(T), int(salt % 3 ? 0 : N + 2));
}
template<typename C, bool Array = false> static void in(const char* name, const char* what) {
    using T = typename C::value_type;
    C c; for(long i = 0; i < all; ++i) c.emplace_back(make<T>(int(i % 251)));
    auto f = std::next(c.begin(), L), l = std::next(f, N);
    auto r = xme::reverse(f, l);
    result(show(std::distance(c.begin(), r), c.begin(), c.end()), name, what);
}
template<typename C> static void whole(const char* name, const char* what) {
    if(L || T_) return;
    using T = typename C::value_type;
    C c; for(long i = 0; i < all; ++i) c.emplace_back(make<T>(int(i % 251)));
    auto r = xme::reverse(c);
    long k = 0; for(auto i = c.begin(); i != r; ++i) ++k;
    result(show(k, c.begin(), c.end()), name, what);
}
template<typename T> static void array(const char* name) {
    xme::Array<T> c; for(long i = 0; i < all; ++i) c.emplace_back(make<T>(int(i % 251)));
    auto r = xme::reverse(c.begin() + L, c.begin() + (L + N));
    result(show(r - c.begin(), c.begin(), c.end()), name, "Array");
}
template<typename T> static void containers(const char* name) {
    in<std::vector<T>>(name, "vector"); in<std::deque<T>>(name, "deque"); in<std::list<T>>(name, "list");
    whole<std::vector<T>>(name, "vector (whole)"); whole<std::deque<T>>(name, "deque (whole)"); whole<std::list<T>>(name, "list (whole)"); whole<xme::Array<T>>(name, "Array (whole)");
    array<T>(name);
    std::vector<T> v; for(long i = 0; i < all; ++i) v.emplace_back(make<T>(int(i % 251)));
    { auto r = xme::reverse(v.rbegin() + T_, v.rbegin() + (T_ + N)); result(show(r - v.rbegin() - T_ + L, v.begin(), v.end()), name, "backwards"); }
    { std::vector<T> w; for(long i = 0; i < all; ++i) w.emplace_back(make<T>(int(i % 251)));
      auto r = xme::reverse(w.data() + L, EndU<T>{w.data() + L + N}); result(show(r - w.data(), w.begin(), w.end()), name, "unsized range"); }
}
template<typename T, int n> constexpr bool in_constant() {
    std::array<T, n + 2> a{}; for(int i = 0; i < n + 2; ++i) a[i] = T(i % 100);
    auto r = xme::reverse(a.begin() + 1, a.end() - 1);
    if(r != a.end() - 1 || a[0] != T(0) || a[n + 1] != T((n + 1) % 100)) return false;
    for(int i = 1; i <= n; ++i) if(a[i] != T((n + 1 - i) % 100)) return false;
    return true;
}
static_assert(in_constant<char, 0>() && in_constant<char, 1>() && in_constant<char, 31>() && in_constant<char, 32>() && in_constant<char, 70>() && in_constant<char, 129>() && in_constant<int, 9>() && in_constant<long, 40>());

int main() {
    Script s;
    setup();
    while(s.next()) {
        if(s.op() == "end") break;
        if(s.op() == "reset") { std::puts("ok"); continue; }
        N = s.num(0), L = s.num(1), T_ = s.num(2), all = L + N + T_;
        results.clear();
        const int t = int(L + T_);
        everywhere<char>("char", t); everywhere<unsigned char>("unsigned char", t + 1); everywhere<std::byte>("byte", t + 2); everywhere<char8_t>("char8", t + 3); everywhere<E1>("enum 1", t + 4);
        everywhere<Plain1>("1-byte struct", t + 5); everywhere<Placed<unsigned char>>("1-byte class that depends on its address", t + 6); everywhere<MoveOnly1>("1-byte move-only class", t + 7);
        everywhere<std::int16_t>("int16", t); everywhere<std::uint32_t>("uint32", t + 1); everywhere<E4>("enum 4", t + 2); everywhere<std::int64_t>("int64", t + 3); everywhere<int*>("pointer", t + 4);
        everywhere<float>("float", t + 5); everywhere<double>("double", t + 6); everywhere<long double>("long double", t + 7);
        everywhere<Triple>("3-byte struct", t + 8); everywhere<Big>("48-byte struct", t + 9); everywhere<Placed<std::uint32_t>>("4-byte class that depends on its address", t + 3); everywhere<Placed<unsigned long>>("8-byte class that depends on its address", t + 4);
        if(N <= 80) { containers<int>("int"); containers<char>("char"); containers<Placed<unsigned char>>("1-byte class that depends on its address"); containers<std::string>("string"); containers<std::unique_ptr<int>>("unique_ptr"); }
        std::string out;
        if(results.size() == 1) out = results.begin()->first;
        else for(auto& [r, l] : results) out += r + " (" + l + ") ";
        std::puts(out.c_str()); std::fflush(stdout);
    }
    std::puts("bye");
}
