// Which elements an operation touches (spec/Footprint): every element or node has a page of its own, and before an operation
// all pages are taken away; a page that is missed is recorded and given back.   argv: list array heap view queue
#include "track.hpp"
#include <array>
#include <csignal>
#include <functional>
#include <optional>
#include <set>
#include <span>
#include <algorithm>
#include <sys/mman.h>
#include <ucontext.h>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/container/spsc_queue.hpp>
using namespace vp;
static constexpr std::size_t P = 4096, Pages = 1 << 14;
static char* pool; static std::size_t used, fresh;      // pages handed out; those before the operation
static bool armed; static unsigned char hit[Pages];
static long allocs, total, cmps;

static void on_segv(int sig, siginfo_t* i, void*) {
    auto a = static_cast<char*>(i->si_addr);
    if(armed && a >= pool && a < pool + Pages * P) {
        const std::size_t k = (a - pool) / P;
        hit[k] = 1;
        mprotect(pool + k * P, P, PROT_READ | PROT_WRITE);
        return;
    }
    signal(sig, SIG_DFL);
}
template<typename F> static void measured(F&& f) {
    std::memset(hit, 0, sizeof hit); allocs = cmps = 0; fresh = used;
    if(used) mprotect(pool, used * P, PROT_NONE);
    armed = true; asm volatile("" ::: "memory");
    f();
    asm volatile("" ::: "memory"); armed = false;
    mprotect(pool, Pages * P, PROT_READ | PROT_WRITE);
}
template<typename T> struct PageAlloc {
    using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    PageAlloc() = default;
    template<typename U> PageAlloc(const PageAlloc<U>&) noexcept {}
    T* allocate(std::size_t n) {
        const std::size_t k = (n * sizeof(T) + P - 1) / P;
        if(used + k > Pages) { std::fputs("out of pages\n", stderr); std::abort(); }
        char* p = pool + used * P; used += k; ++allocs; ++total;
        return reinterpret_cast<T*>(p);
    }
    void deallocate(T*, std::size_t) noexcept {}
    friend bool operator==(const PageAlloc&, const PageAlloc&) noexcept { return true; }
};
struct alignas(P) Cell {
    long v;
    static inline std::map<const void*, long> living;     // for the queue, whose elements cannot be looked up
    Cell(long x) : v(x) { living[this] = v; }
    Cell(const Cell& o) : v(o.v) { living[this] = v; }
    Cell(Cell&& o) noexcept : v(o.v) { living[this] = v; }
    Cell& operator=(const Cell& o) { v = o.v; living[this] = v; return *this; }
    Cell& operator=(Cell&& o) noexcept { v = o.v; living[this] = v; return *this; }
    ~Cell() { v = 0; living.erase(this); }
};
struct Less { bool operator()(const Cell& a, const Cell& b) const { ++cmps; return a.v < b.v; } };
static long page(const void* p) { auto a = static_cast<const char*>(p); return a >= pool && a < pool + Pages * P ? (a - pool) / long(P) : -1; }
struct Map { std::map<long, std::string> at; };
static Map now;
static std::string report() {
    std::string o = std::to_string(allocs) + " " + std::to_string(cmps) + " " + std::to_string(total);
    for(std::size_t k = 0; k < fresh; ++k) if(hit[k]) { auto it = now.at.find(k); if(it != now.at.end()) o += " " + it->second; }
    return o;
}
static volatile long sink;
static std::string counts(std::size_t a, std::size_t b) { return std::to_string(a) + " " + std::to_string(b) + " "; }
template<typename F> static void loop(F step, std::function<void()> clean) {
    Script in;
    while(in.next()) {
        if(in.op() == "end") break;
        if(in.op() == "reset") { clean(); used = 0; total = 0; std::puts("ok"); continue; }
        step(in);
    }
    clean();
    std::puts("bye");
}
static void lists() {
    using L = xme::LinkedList<long, PageAlloc<long>>;
    std::optional<L> a(std::in_place), b(std::in_place);
    loop([&](const Script& in) {
        const auto& op = in.op();
        now.at.clear();
        std::vector<L::iterator> at{a->before_begin()};
        for(auto i = a->begin(); i != a->end(); ++i) { at.push_back(i); now.at[page(&*i)] = "1:" + std::to_string(at.size() - 1); }
        long k = 0; for(auto& x : *b) now.at[page(&x)] = "2:" + std::to_string(++k);
        at.push_back(a->end());
        auto pos = [&](int i) { return at.at(in.num(i)); };
        const long w = in.num(in.tok.size() - 1);
        if(op == "pushf") measured([&] { a->push_front(long(w)); });
        else if(op == "pushl") measured([&] { a->push_front(w); });
        else if(op == "emplacef") measured([&] { sink = a->emplace_front(w); });
        else if(op == "popf") measured([&] { a->pop_front(); });
        else if(op == "front") measured([&] { sink = a->front(); });
        else if(op == "begin") measured([&] { auto i = a->begin(); auto e = a->end(); sink = i == e; });
        else if(op == "empty") measured([&] { sink = a->empty(); });
        else if(op == "ins") { auto p = pos(1); measured([&] { a->insert_after(p, long(w)); }); }
        else if(op == "insl") { auto p = pos(1); measured([&] { a->insert_after(p, w); }); }
        else if(op == "emplace") { auto p = pos(1); measured([&] { a->emplace_after(p, w); }); }
        else if(op == "insr") { auto p = pos(1); std::vector<long> v(in.num(2), w); measured([&] { a->insert_after(p, v); }); }
        else if(op == "erase") { auto p = pos(1); measured([&] { a->erase_after(p); }); }
        else if(op == "eraser") { auto p = pos(1), q = pos(2); measured([&] { a->erase_after(p, q); }); }
        else if(op == "next") { auto p = pos(1); measured([&] { ++p; sink = p == a->end(); }); }
        else if(op == "deref") { auto p = pos(1); measured([&] { sink = *p; }); }
        else if(op == "clear") measured([&] { a->clear(); });
        else if(op == "reverse") measured([&] { a->reverse(); });
        else if(op == "movector") { b.reset(); measured([&] { b.emplace(std::move(*a)); }); }
        else if(op == "massign") measured([&] { *b = std::move(*a); });
        else std::abort();
        long na = 0, nb = 0; for([[maybe_unused]] auto& x : *a) ++na; for([[maybe_unused]] auto& x : *b) ++nb;
        std::puts((counts(na, nb) + report()).c_str());
    }, [&] { a.emplace(); b.emplace(); });
}
static void label(auto& x, const char* which) { long k = 0; for(auto& e : x) now.at[page(&e)] = which + std::to_string(k++); }
static void arrays() {
    using V = xme::Array<Cell, PageAlloc<Cell>>;
    std::optional<V> a(std::in_place), b(std::in_place);
    loop([&](const Script& in) {
        const auto& op = in.op();
        now.at.clear(); label(*a, "1:"); label(*b, "2:");
        const Cell w(in.num(in.tok.size() - 1));
        auto at = [&](int i) { return std::as_const(*a).begin() + in.num(i); };
        if(op == "push") measured([&] { a->push_back(Cell(w)); });
        else if(op == "pushl") measured([&] { a->push_back(w); });
        else if(op == "emplace") measured([&] { a->emplace_back(w.v); });
        else if(op == "pushr") { std::vector<Cell> v(in.num(1), w); measured([&] { a->push_back(v); }); }
        else if(op == "pop") measured([&] { a->pop_back(); });
        else if(op == "front") measured([&] { sink = a->front().v; });
        else if(op == "back") measured([&] { sink = a->back().v; });
        else if(op == "at") measured([&] { sink = (*a)[in.num(1)].v; });
        else if(op == "iter") measured([&] { auto i = a->begin(); i += in.num(1); sink = i->v; });
        else if(op == "erase") { auto p = at(1); measured([&] { a->erase(p); }); }
        else if(op == "eraser") { auto p = at(1), q = at(2); measured([&] { a->erase(p, q); }); }
        else if(op == "ins") { auto p = at(1); measured([&] { a->insert(p, Cell(w)); }); }
        else if(op == "insl") { auto p = at(1); measured([&] { a->insert(p, w); }); }
        else if(op == "insr") { auto p = at(1); std::vector<Cell> v(in.num(2), w); measured([&] { a->insert(p, v.begin(), v.end()); }); }
        else if(op == "sizes") measured([&] { sink = a->size() + a->empty() + a->capacity() + page(a->data()); });
        else if(op == "walk") measured([&] { long k = 0; for(auto i = a->begin(); i != a->end(); i++) ++k; sink = k + (a->end() - a->begin()); });
        else if(op == "clear") measured([&] { a->clear(); });
        else if(op == "reserve") measured([&] { a->reserve(in.num(1)); });
        else if(op == "movector") { b.reset(); measured([&] { b.emplace(std::move(*a)); }); }
        else if(op == "massign") measured([&] { *b = std::move(*a); });
        else if(op == "swap") measured([&] { a->swap(*b); });
        else if(op == "stdswap") measured([&] { std::swap(*a, *b); });
        else std::abort();
        std::puts((counts(a->size(), b->size()) + report()).c_str());
    }, [&] { a.emplace(); b.emplace(); });
}
static void heaps() {
    using H = xme::Heap<Cell, xme::Array<Cell, PageAlloc<Cell>>, Less>;
    std::optional<H> a(std::in_place), b(std::in_place);
    loop([&](const Script& in) {
        const auto& op = in.op();
        now.at.clear(); label(*a, "1:"); label(*b, "2:");
        const Cell w(in.num(in.tok.size() - 1));
        if(op == "push") measured([&] { a->push(Cell(w)); });
        else if(op == "pushl") measured([&] { a->push(w); });
        else if(op == "emplace") measured([&] { a->emplace(w.v); });
        else if(op == "pop") measured([&] { a->pop(); });
        else if(op == "front") measured([&] { sink = a->front().v; });
        else if(op == "sizes") measured([&] { sink = a->size() + a->empty(); });
        else if(op == "walk") measured([&] { long k = 0; for(auto i = a->begin(); i != a->end(); i++) ++k; sink = k; });
        else if(op == "movector") { b.reset(); measured([&] { b.emplace(std::move(*a)); }); }
        else if(op == "massign") measured([&] { *b = std::move(*a); });
        else if(op == "stdswap") measured([&] { std::swap(*a, *b); });
        else std::abort();
        std::puts((counts(a->size(), b->size()) + report()).c_str());
        if(op == "movector" || op == "massign" || op == "stdswap") total = 0;         // storage grows anew
    }, [&] { a.emplace(); b.emplace(); });
}
template<typename T> inline constexpr bool cheap = std::is_trivially_copyable_v<T>;
static_assert(cheap<xme::ArrayView<Cell>> && cheap<xme::ArrayView<const int, 3>> && cheap<xme::ArrayView<std::string, 1>> && cheap<xme::ArrayView<std::string>> && cheap<xme::ArrayView<Cell, 0>>);
static_assert(sizeof(xme::ArrayView<Cell>) <= 16 && sizeof(xme::ArrayView<char>) <= 16 && sizeof(xme::ArrayView<int, 3>) <= 8 && sizeof(xme::ArrayView<std::string, 100>) <= 8 && sizeof(xme::ArrayView<const char, 1>) <= 8 && sizeof(xme::ArrayView<Cell, 0>) <= 8);
static_assert(noexcept(xme::ArrayView<Cell>(std::declval<const xme::ArrayView<Cell>&>())) && noexcept(std::declval<xme::ArrayView<Cell>&>() = std::declval<const xme::ArrayView<Cell>&>()));
static void views() {
    constexpr int N = 9;
    Cell* base = nullptr; std::optional<xme::ArrayView<Cell>> v;
    loop([&](const Script& in) {
        const auto& op = in.op();
        auto& x = *v; auto num = [&](int i) { return std::size_t(in.num(i)); };
        now.at.clear(); for(int k = 0; k < N; ++k) now.at[page(base + k)] = "1:" + std::to_string(k);
        if(op == "pointers") measured([&] { x = xme::ArrayView<Cell>(base + num(1), base + num(1) + num(2)); });
        else if(op == "counted") measured([&] { x = xme::ArrayView<Cell>(base + num(1), num(2)); });
        else if(op == "range") { std::span<Cell> s(base + num(1), num(2)); measured([&] { x = xme::ArrayView<Cell>(s); }); }
        else if(op == "whole") measured([&] { x = xme::ArrayView<Cell>(reinterpret_cast<Cell(&)[N]>(*base)); });
        else if(op == "stdarray") measured([&] { x = xme::ArrayView<Cell>(reinterpret_cast<std::array<Cell, N>&>(*base)); });
        else if(op == "fixed") measured([&] { xme::ArrayView f(reinterpret_cast<std::array<Cell, N>&>(*base)); auto g = f; f = g.template first<N>().template last<N>().template subview<0, N>(); x = xme::ArrayView<Cell>(f.begin(), f.size()); });
        else if(op == "first") measured([&] { x = x.first(num(1)); });
        else if(op == "last") measured([&] { x = x.last(num(1)); });
        else if(op == "sub") measured([&] { x = x.subview(num(1), num(2)); });
        else if(op == "copy") measured([&] { auto y = x; decltype(y) z; z = y; x = std::move(z); });
        else if(op == "sizes") measured([&] { sink = x.size() + x.empty() + x.size_bytes() + page(x.data()); });
        else if(op == "walk") measured([&] { long k = 0; for(auto i = x.begin(); i != x.end(); i++) ++k; for(auto i = std::as_const(x).end(); i != std::as_const(x).begin(); --i) ++k; sink = k; });
        else if(op == "bytes") measured([&] { sink = xme::as_bytes(x).size() + xme::as_writable_bytes(x).size(); });
        else if(op == "at") measured([&] { sink = x[num(1)].v; });
        else if(op == "iter") measured([&] { sink = x.begin()[num(1)].v; });
        else std::abort();
        std::puts((counts(x.size(), x.size() ? std::size_t(x.data() - base) : 99) + report()).c_str());
    }, [&] {
        used = 0; base = PageAlloc<Cell>().allocate(N); Cell::living.clear();
        for(int k = 0; k < N; ++k) ::new(static_cast<void*>(base + k)) Cell(k);
        v.emplace(base, std::size_t(N));
    });
}
static void queues() {
    using Q = xme::SPSCQueue<Cell, PageAlloc<Cell>>;
    std::optional<Q> q;
    loop([&](const Script& in) {
        const auto& op = in.op();
        if(!q) q.emplace(std::size_t(4));
        now.at.clear();
        std::vector<std::pair<long, const void*>> order;
        for(auto& [p, v] : Cell::living) if(page(p) >= 0) order.push_back({v, p});
        std::sort(order.begin(), order.end());
        for(std::size_t k = 0; k < order.size(); ++k) now.at[page(order[k].second)] = "1:" + std::to_string(k);
        static long next = 0;
        if(order.empty()) next = 0;
        { const Cell w(++next);
            if(op == "push") measured([&] { sink = q->push(Cell(w)); });
            else if(op == "pushl") measured([&] { sink = q->push(w); });
            else if(op == "emplace") measured([&] { sink = q->emplace(w.v); });
            else if(op == "pop") measured([&] { q->pop(); });
            else if(op == "consume") measured([&] { q->consume([](Cell&& c) { sink = c.v; }); });
            else if(op == "sizes") measured([&] { sink = q->read_available() + q->write_available(); });
            else std::abort();
        }
        std::size_t n = 0; for(auto& [p, v] : Cell::living) n += page(p) >= 0;
        std::puts((counts(n, 0) + report()).c_str());
    }, [&] { q.reset(); });
}
int main(int, char** argv) {
    pool = static_cast<char*>(mmap(nullptr, Pages * P, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if(pool == MAP_FAILED) return 9;
    struct sigaction s{}; s.sa_sigaction = on_segv; s.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &s, nullptr); sigaction(SIGBUS, &s, nullptr);
    const std::string k = argv[1];
    if(k == "list") lists(); else if(k == "array") arrays(); else if(k == "heap") heaps(); else if(k == "view") views(); else queues();
}
