// Runs xme::ranges::uninitialized_* and destroy_* on instrumented elements: argv = element type, trace file.
// Lines: copy <input kind> <ni> <target kind> <no> <form> <fault> | fill <target kind> <no> <fault> | destroy <kind> <no> <form>
#include "track.hpp"
#include <list>
#include <numeric>
#include <span>
#include <xme/container/array_view.hpp>
#include <xme/ranges/destroy.hpp>
#include <xme/ranges/uninitialized.hpp>
using namespace vp;

inline int inside = 0;
inline long outside = 0;
inline bool judged = false;
struct Own : TThrow {                                  // constructed and destroyed by its allocator only; & is not its address
    static void in() { if(judged && !inside) ++outside; }
    Own(Val v) : TThrow(v) { in(); }
    Own(const Own& o) : TThrow(o) { in(); }
    Own(Own&& o) : TThrow(std::move(o)) { in(); }
    ~Own() { in(); }
    Own* operator&() const { return nullptr; }
};
template<typename T>
struct OwnAlloc {
    using value_type = T;
    int tag = 7;
    OwnAlloc() = default;
    template<typename U> OwnAlloc(const OwnAlloc<U>&) noexcept {}
    T* allocate(std::size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
    void deallocate(T* p, std::size_t) noexcept { ::operator delete(p); }
    template<typename U, typename... A> void construct(U* p, A&&... a) {
        struct G { G() { ++inside; } ~G() { --inside; } } g;
        if(tag != 7) ++outside;
        ::new(static_cast<void*>(p)) U(std::forward<A>(a)...);
    }
    template<typename U> void destroy(U* p) noexcept { if(tag != 7) ++outside; ++inside; std::destroy_at(p); --inside; }
    friend bool operator==(const OwnAlloc&, const OwnAlloc&) { return true; }
};

// forward iterator over elements that lie anywhere; Ref: T&, const T&, T&& or Val
template<typename T, typename Ref>
struct TableIt {
    using iterator_concept = std::forward_iterator_tag;
    using iterator_category = std::forward_iterator_tag;
    using value_type = std::conditional_t<std::is_same_v<Ref, Val>, Val, std::remove_cv_t<T>>;
    using difference_type = std::ptrdiff_t;
    using reference = Ref;
    using pointer = void;
    T* const* p = nullptr;
    Ref operator*() const {
        if constexpr(std::is_same_v<Ref, Val>) return Val{(*p)->value()};
        else return static_cast<Ref>(**p);
    }
    TableIt& operator++() { ++p; return *this; }
    TableIt operator++(int) { auto r = *this; ++p; return r; }
    bool operator==(const TableIt&) const = default;
};
template<typename It> struct Until {               // a sentinel of another type
    It at{};
    friend bool operator==(const It& a, const Until& b) { return a == b.at; }
};

template<typename T>
struct Memory {                                        // n cells of T[M] in a block, all raw
    long id, n;
    unsigned char* raw;
    explicit Memory(long count) : n(count) {
        raw = static_cast<unsigned char*>(::operator new(n * sizeof(T) + 1, std::align_val_t(32)));
        std::memset(raw, 0, n * sizeof(T));
        Block b{reinterpret_cast<std::uintptr_t>(raw), n * sizeof(T), sizeof(T), log().next_block++, n};
        id = b.id;
        log().blocks[b.base] = b;
        log().line("[\"alloc\"," + std::to_string(id) + "," + std::to_string(n) + "]");
    }
    ~Memory() { log().blocks.erase(reinterpret_cast<std::uintptr_t>(raw)); ::operator delete(raw, std::align_val_t(32)); }
    T* at(long i) const { return reinterpret_cast<T*>(raw) + i; }
    void make(long i, int v) const { ::new(static_cast<void*>(at(i))) T(Val{v}); }
    std::string cell(long i) const { return "[" + std::to_string(id) + "," + std::to_string(i) + "]"; }
};

constexpr int Guard = 2;
// where the k-th element of a range of n lies, among n + 2 * Guard cells: in order, scattered, reversed
inline long place(int kind, long k, long n) {
    if(kind == 0) return Guard + k;
    if(kind == 2) return Guard + n - 1 - k;
    return Guard + (n % 2 ? (2 * k) % n : (k % 2 ? n - 1 - k / 2 : k / 2));
}
template<typename It> long pos(It first, long n, It at) { for(long i = 0; i <= n; ++i, ++first) if(first == at) return i; return -1; }

template<typename T, typename Alloc, bool Copyable>
struct Driver {
    Alloc alloc;
    template<typename F> void with(int kind, Memory<T>& m, std::vector<T*>& table, long n, F f) {      // iterators to T&
        if(kind == 0) f(m.at(Guard), m.at(Guard) + n);
        else if(kind == 1) f(TableIt<T, T&>{table.data()}, TableIt<T, T&>{table.data() + n});
        else f(std::reverse_iterator<T*>(m.at(Guard) + n), std::reverse_iterator<T*>(m.at(Guard)));
    }
    template<typename F> void source(int kind, Memory<T>& m, std::vector<T*>& table, std::vector<const T*>& ctable, long n, F f) {
        if constexpr(Copyable) {
            if(kind == 0) return f(static_cast<const T*>(m.at(Guard)), static_cast<const T*>(m.at(Guard)) + n);
            if(kind == 1) return f(TableIt<const T, const T&>{ctable.data()}, TableIt<const T, const T&>{ctable.data() + n});
            if(kind == 2) return f(std::reverse_iterator<T*>(m.at(Guard) + n), std::reverse_iterator<T*>(m.at(Guard)));
        }
        if(kind == 4) f(TableIt<const T, Val>{ctable.data()}, TableIt<const T, Val>{ctable.data() + n});
        else f(TableIt<T, T&&>{table.data()}, TableIt<T, T&&>{table.data() + n});
    }
    template<typename I, typename O> auto copy(int form, I a, I b, O c, O d) {
        auto& f = xme::ranges::uninitialized_copy_a;
        if(form == 0) return f(a, b, c, d, alloc);
        if(form == 1) return f(a, Until<I>{b}, c, Until<O>{d}, alloc);
        if(form == 2) { std::ranges::subrange in(a, b); std::ranges::subrange out(c, d); return f(in, out, alloc); }
        if(form == 3) return f(std::ranges::subrange(a, Until<I>{b}), std::ranges::subrange(c, Until<O>{d}), alloc);
        if constexpr(std::is_pointer_v<I> && std::is_pointer_v<O>) {
            std::span in(a, b);
            xme::ArrayView<T> out(c, d);
            auto r = f(in, out, alloc);
            return xme::Pair<I, O>{a + (r.first - in.begin()), c + (r.second - out.begin())};
        }
        else return f(std::ranges::subrange(a, b), std::ranges::subrange(c, d), alloc);
    }
    template<typename U> static void list(std::string& s, Memory<U>& m, int kind, long n, bool nested) {
        for(long k = 0; k < n; ++k) s += (k ? "," : "") + std::string(nested ? "[" : "") + m.cell(place(kind, k, n)) + (nested ? "]" : "");
    }
    void ret(bool exc, long i, long o, Memory<T>& m, int kind, long n) {
        log().countdown = 0;
        judged = false;
        std::string v;
        for(long k = 0; k < n; ++k) v += (k ? "," : "") + std::to_string(m.at(place(kind, k, n))->value());
        log().line("[\"ret\"," + std::to_string(exc) + "," + std::to_string(i) + "," + std::to_string(o) + "," + std::to_string(outside) + ",[" + v + "]]");
    }
    static void arm(long f) { log().countdown = f; outside = 0; judged = std::is_same_v<T, Own>; }

    void build(bool copying, int ik, long ni, int ok, long no, int form, long fault, bool around) {
        Memory<T> in(copying ? ni + 2 * Guard : 1), out(no + 2 * Guard);
        std::vector<T*> it, ot;
        std::vector<const T*> ict;
        if(copying) {
            for(long i = 0; i < Guard; ++i) { in.make(i, 90); in.make(ni + Guard + i, 91); }
            for(long k = 0; k < ni; ++k) { in.make(place(ik, k, ni), int(k + 1)); it.push_back(in.at(place(ik, k, ni))); ict.push_back(it.back()); }
        }
        else in.make(0, 5);
        for(long k = 0; k < no; ++k) ot.push_back(out.at(place(ok, k, no)));
        if(around) for(long i = 0; i < Guard; ++i) { out.make(i, 80); out.make(no + Guard + i, 81); }
        std::string s = "[\"call\",\"" + std::string(copying ? "copy" : "fill") + "\",[";
        if(copying) { if(ik == 4) { for(long k = 0; k < ni; ++k) s += (k ? ",[0,0]" : "[0,0]"); } else list(s, in, ik, ni, false); }
        s += "],[";
        list(s, out, ok, no, true);
        log().line(s + "]]");
        long ri = 0, ro = 0;
        bool exc = false;
        try {
            with(ok, out, ot, no, [&](auto c, auto d) {
                if(copying) source(ik, in, it, ict, ni, [&](auto a, auto b) {
                    arm(fault);
                    auto r = copy(form, a, b, c, d);
                    log().countdown = 0;
                    ri = pos(a, ni, r.first); ro = pos(c, no, r.second);
                });
                else if constexpr(Copyable) {
                    arm(fault);
                    auto r = xme::ranges::uninitialized_fill_n_a(c, std::size_t(no), *in.at(0), alloc);
                    log().countdown = 0;
                    ro = pos(c, no, r);
                }
            });
        }
        catch(const Boom&) { exc = true; }
        ret(exc, ri, ro, out, ok, no);
    }

    template<typename U> void destroy(int kind, long n, int form) {            // U: T or an array of T
        constexpr long M = sizeof(U) / sizeof(T);
        Memory<T> m((n + 2 * Guard) * M);
        for(long i = 0; i < m.n; ++i) m.make(i, int(i));
        std::vector<U*> table;
        std::string s = "[\"call\",\"destroy\",[],[";
        for(long k = 0; k < n; ++k) {
            long p = place(kind, k, n);
            table.push_back(reinterpret_cast<U*>(m.at(p * M)));
            s += k ? ",[" : "[";
            for(long j = 0; j < M; ++j) s += (j ? "," : "") + m.cell(p * M + j);
            s += "]";
        }
        log().line(s + "]]");
        auto go = [&](auto a, auto b) {
            using It = decltype(a);
            arm(0);
            if(form == 0) xme::ranges::destroy_a(a, b, alloc);
            else if(form == 1) xme::ranges::destroy_a(a, Until<It>{b}, alloc);
            else if(form == 2) { std::ranges::subrange r(a, b); xme::ranges::destroy_a(r, alloc); }
            else if(form == 3) xme::ranges::destroy_a(std::ranges::subrange(a, Until<It>{b}), alloc);
            else if(form == 4) xme::ranges::destroy_n_a(a, std::iter_difference_t<It>(n), alloc);
            else for(auto* p : table) xme::ranges::destroy_at_a(p, alloc);
        };
        auto* base = reinterpret_cast<U*>(m.at(0));
        if(kind == 0) go(base + Guard, base + Guard + n);
        else if(kind == 1) go(TableIt<U, U&>{table.data()}, TableIt<U, U&>{table.data() + n});
        else go(std::reverse_iterator<U*>(base + Guard + n), std::reverse_iterator<U*>(base + Guard));
        ret(false, 0, 0, m, 0, 0);
    }
    void run() {
        Script s;
        while(s.next()) {
            auto& op = s.op();
            log().reset_ids();
            if(op == "end") { log().line("[\"quit\"]"); log().close(); std::puts("bye"); return; }
            if(op == "copy") build(true, int(s.num(1)), s.num(2), int(s.num(3)), s.num(4), int(s.num(5)), s.num(6), s.num(7));
            else if(op == "fill") build(false, 0, 0, int(s.num(1)), s.num(2), 0, s.num(3), s.num(4));
            else if(op == "destroy") {
                int e = int(s.num(4));
                if(e == 0) destroy<T>(int(s.num(1)), s.num(2), int(s.num(3)));
                else if(e == 1) destroy<T[2]>(int(s.num(1)), s.num(2), int(s.num(3)));
                else if(e == 2) destroy<T[3][2]>(int(s.num(1)), s.num(2), int(s.num(3)));
                else destroy<T[1][2][2]>(int(s.num(1)), s.num(2), int(s.num(3)));
            }
            else if(op == "reset") log().line("[\"reset\"]");
            std::puts("ok");
        }
    }
};

int main(int, char** a) {
    std::string t = a[1];
    log().open(a[2]);
    if(t == "throw") Driver<TThrow, LogAlloc<TThrow>, true>{}.run();
    else if(t == "own") Driver<Own, OwnAlloc<Own>, true>{}.run();
    else Driver<TMove, std::allocator<TMove>, false>{}.run();
}
