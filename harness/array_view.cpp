// Drives xme::ArrayView: sources, sub-views and accesses, one script line each.
#include "track.hpp"
#include <array>
#include <cstddef>
#include <functional>
#include <ranges>
#include <span>
#include <variant>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
using namespace vp;

constexpr std::size_t MAXN = 5, DYN = std::size_t(-1);
struct Trio { short v; char c[2]; char w; };        // 6 bytes
namespace vp { template<> struct Elem<Trio> { static Trio make(int v) { return Trio{short(v), {1, 2}, char(~v)}; } static int read(const Trio& x) { return x.w == char(~x.v) ? x.v : -998; } static constexpr bool copyable = true; }; }

template<typename T>
struct Driver {
    using E = Elem<T>;
    static constexpr bool raw = std::is_trivially_copyable_v<T>;
    // memory: every source lives here
    T c_array[MAXN + 1][MAXN + 2];
    std::tuple<std::array<T, 1>, std::array<T, 2>, std::array<T, 3>, std::array<T, 4>, std::array<T, 5>> arrays;
    std::vector<T> vec;
    xme::Array<T> xarr;
    T c1[1], c2[2], c3[3], c4[4], c5[5];
    T* base = c1;
    std::size_t n = 0;

    // a view of any type: what its operations do
    struct Any {
        virtual ~Any() = default;
        virtual bool step(Driver&, const Script&) = 0;
    };
    std::unique_ptr<Any> view;
    std::string out;
    bool bad = false;
    std::vector<T> before;
    std::vector<unsigned char> bytes_before;

    template<typename V> void set(V v);
    std::string diff() {
        std::string s;
        for(std::size_t i = 0; i < n; ++i) if(E::read(base[i]) != E::read(before[i])) s += (s.empty() ? "" : ",") + std::to_string(i) + ":" + std::to_string(E::read(base[i]));
        return "{" + s + "}";
    }
    template<typename U, std::size_t S>
    void show(xme::ArrayView<U, S> v) {
        const auto& cv = v;
        std::size_t k = v.size();
        std::string s = "[";
        auto p = v.begin();
        for(std::size_t i = 0; i < k; ++i, ++p) {
            U* x = &*p;
            if(x < base || x >= base + n) { bad = true; s += "outside "; continue; }
            s += (i ? "," : "") + std::to_string(x - base);
            if(&v[i] != x || &cv[i] != x || v.data() + i != x || cv.data() + i != x || &*(cv.begin() + i) != x) bad = true;
            if(&*(typename xme::ArrayView<U, S>::reverse_iterator(v.end()) + (k - 1 - i)) != x) bad = true;
            if(&std::ranges::rbegin(v)[k - 1 - i] != x) bad = true;
        }
        if(p != v.end() || cv.begin() + k != cv.end() || cv.size() != k || v.size_bytes() != k * sizeof(T)) bad = true;
        if(v.empty() != (k == 0) || cv.empty() != (k == 0)) bad = true;
        if(k && (&v.front() != &v[0] || &v.back() != &v[k - 1] || &cv.front() != &v[0] || &cv.back() != &v[k - 1])) bad = true;
        if(std::size_t(std::ranges::distance(v)) != k) bad = true;
        std::size_t i = 0;
        for(auto&& x : v) if(&x != &v[i++]) bad = true;
        if(S != DYN && S != k) bad = true;
        auto* at = v.data();
        if(at && (at < base || at > base + n)) bad = true;
        out = s + "]@" + std::to_string(at ? at - base : -1) + " " + (S == DYN ? "d " : "s ");
    }
    template<std::size_t N> auto& carr() { if constexpr(N == 1) return c1; else if constexpr(N == 2) return c2; else if constexpr(N == 3) return c3; else if constexpr(N == 4) return c4; else return c5; }
    template<typename F> void with(std::size_t k, F f) {
        [&]<std::size_t... I>(std::index_sequence<I...>) { (void)((I == k ? (f(std::integral_constant<std::size_t, I>{}), true) : false) || ...); }(std::make_index_sequence<MAXN + 1>{});
    }
    void fill(T* p, std::size_t k) { base = p; n = k; for(std::size_t i = 0; i < k; ++i) p[i] = E::make(int(10 + i)); snap(); }
    void snap() { before.assign(base, base + n); if constexpr(raw) { bytes_before.resize(n * sizeof(T)); if(n) std::memcpy(bytes_before.data(), base, n * sizeof(T)); } }

    bool source(const Script& s) {
        auto& op = s.op();
        if(op == "default") { set(xme::ArrayView<T>()); return true; }
        if(op == "sdefault") { set(xme::ArrayView<T, 0>()); return true; }
        if(op == "ptr") { set(xme::ArrayView<T>(base + s.num(1), std::size_t(s.num(2)))); return true; }
        if(op == "ptrs") { set(xme::ArrayView<T>(base + s.num(1), base + s.num(1) + s.num(2))); return true; }
        if(op == "iter") { std::span<T> sp(base, n); set(xme::ArrayView(sp.begin() + s.num(1), sp.begin() + s.num(1) + s.num(2))); return true; }
        if(op == "cptr") { const T* p = base; set(xme::ArrayView(p + s.num(1), std::size_t(s.num(2)))); return true; }
        if(op == "sptr") { with(s.num(2), [&](auto C) { set(xme::ArrayView<T, C()>(base + s.num(1), C())); }); return true; }
        if(s.tok.size() < 2) return false;
        std::size_t k = s.num(1);
        if(op == "carr" || op == "carrdyn" || op == "ccarr") {
            with(k, [&](auto N) { if constexpr(N() > 0) {
                auto& a = carr<N()>(); fill(a, N());
                if(op == "carr") set(xme::ArrayView{a});
                else if(op == "carrdyn") set(xme::ArrayView<T>(a));
                else set(xme::ArrayView{std::as_const(a)});
            } });
            return true;
        }
        if(op == "stdarr" || op == "stdarrdyn" || op == "cstdarr") {
            with(k, [&](auto N) { if constexpr(N() > 0) {
                auto& a = std::get<N() - 1>(arrays); fill(a.data(), N());
                if(op == "stdarr") set(xme::ArrayView{a});
                else if(op == "stdarrdyn") set(xme::ArrayView<T>(a));
                else set(xme::ArrayView{std::as_const(a)});
            } });
            return true;
        }
        if(op == "vector" || op == "cvector") { vec.reserve(MAXN + 1); vec.resize(k); fill(vec.data(), k); if(op == "vector") set(xme::ArrayView<T>(std::span<T>(vec))); else { std::span<const T> sp(vec); set(xme::ArrayView(sp)); } return true; }
        if(op == "span" || op == "cspan") { vec.reserve(MAXN + 1); vec.resize(k); fill(vec.data(), k); std::span<T> sp(vec); std::span<const T> cs(vec); if(op == "span") set(xme::ArrayView(sp)); else set(xme::ArrayView<const T>(cs)); return true; }
        if(op == "xarray" || op == "cxarray") { xarr = xme::Array<T>(k, E::make(0)); xarr.reserve(MAXN + 1); fill(xarr.data(), k); if(op == "xarray") set(xme::ArrayView(xarr)); else set(xme::ArrayView(std::as_const(xarr))); return true; }
        return false;
    }
    void run() {
        Script s;
        set(xme::ArrayView<T>());
        while(s.next()) {
            auto& op = s.op();
            if(op == "end") { std::puts("bye"); return; }
            if(op == "reset") { base = c1; n = 0; set(xme::ArrayView<T>()); std::puts("ok"); continue; }
            bad = false;
            snap();
            if(!source(s) && !view->step(*this, s)) std::exit(3);
            std::printf("%s%s%s\n", bad ? "INCONSISTENT " : "", out.c_str(), op == "wbyte" || op == "bytes" ? "" : diff().c_str());
        }
    }
};

template<typename T, typename U, std::size_t S>
struct Held : Driver<T>::Any {
    using D = Driver<T>;
    xme::ArrayView<U, S> v;
    Held(xme::ArrayView<U, S> x) : v(x) {}
    bool step(D& d, const Script& s) override {
        auto op = s.op();
        auto a = [&](int i) { return std::size_t(s.num(i)); };
        if(op == "first") { d.set(std::as_const(v).first(a(1))); return true; }
        if(op == "last") { d.set(std::as_const(v).last(a(1))); return true; }
        if(op == "subview") { d.set(std::as_const(v).subview(a(1), a(2))); return true; }
        if(op == "copy") { auto w = v; xme::ArrayView<U, S> z(v); w = z; d.set(w); return true; }
        if(op == "sfirst") { auto w = v; d.with(a(1), [&](auto C) { if constexpr(S == DYN || C() <= S) d.set(w.template first<C()>()); }); return true; }
        if(op == "slast") { auto w = v; d.with(a(1), [&](auto C) { if constexpr(S == DYN || C() <= S) d.set(w.template last<C()>()); }); return true; }
        if(op == "ssubview") { auto w = v; d.with(a(1), [&](auto O) { d.with(a(2), [&](auto C) { if constexpr(O() + C() <= (S == DYN ? MAXN : S)) d.set(w.template subview<O(), C()>()); }); }); return true; }
        auto finish = [&] { d.show(v); return true; };
        if constexpr(!std::is_const_v<U>) {
            auto x = [&](int k) { return Elem<T>::make(int(s.num(k))); };
            if(op == "windex") { v[a(1)] = x(2); return finish(); }
            if(op == "witer") { *(v.begin() + a(1)) = x(2); return finish(); }
            if(op == "wrev") { *(typename xme::ArrayView<U, S>::reverse_iterator(v.end()) + a(1)) = x(2); return finish(); }
            if(op == "wstdrev") { auto r = std::ranges::rbegin(v); std::advance(r, a(1)); *r = x(2); return finish(); }
            if(op == "wfront") { v.front() = x(1); return finish(); }
            if(op == "wback") { v.back() = x(1); return finish(); }
            if(op == "wall") { for(auto& e : v) e = x(1); return finish(); }
        }
        if(op == "bytes") {
            auto b = xme::as_bytes(v);
            static_assert(std::is_same_v<decltype(b), xme::ArrayView<const std::byte, S == DYN ? DYN : S * sizeof(T)>>);
            auto* p = reinterpret_cast<const std::byte*>(d.base);
            d.out = std::to_string(b.data() ? b.data() - p : -1) + " " + std::to_string(b.size()) + " ";
            if(std::size_t(b.end() - b.begin()) != b.size()) d.bad = true;
            for(std::size_t i = 0; i < b.size() && d.n; ++i) if(&b[i] != p + (b.data() - p) + i) d.bad = true;
            return true;
        }
        if constexpr(!std::is_const_v<U> && D::raw) {
            if(op == "wbyte") {
                auto b = xme::as_writable_bytes(v);
                static_assert(std::is_same_v<decltype(b), xme::ArrayView<std::byte, S == DYN ? DYN : S * sizeof(T)>>);
                b[a(1) * sizeof(T) + a(2)] ^= std::byte(0x5a);
                d.out = "";
                auto* p = reinterpret_cast<unsigned char*>(d.base);
                for(std::size_t i = 0; i < d.n * sizeof(T); ++i) if(p[i] != d.bytes_before[i]) { d.out += std::to_string(i) + " "; p[i] = d.bytes_before[i]; }
                return true;
            }
        }
        return false;
    }
};
template<typename T> template<typename V> void Driver<T>::set(V v) {
    auto make = [&]<typename U, std::size_t S>(xme::ArrayView<U, S> w) {
        if constexpr(S == DYN || S <= MAXN) { show(w); view.reset(new Held<T, U, S>(w)); }
    };
    make(v);
}

int main(int argc, char** argv) {
    std::string t = argc > 1 ? argv[1] : "int";
#ifdef VP_KIND
    VP_KIND
#endif
    return 3;
}
