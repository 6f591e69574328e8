#include "mm.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <ucontext.h>
#include <vector>

namespace mm {
struct Region { std::uintptr_t lo, hi, first; };
static std::vector<Region> regions;
static std::uintptr_t cells = 0;
static std::string log_;
static int cur = 0;                 // running thread
static bool muted = false;
static bool active = false;         // inside run()
static bool is_stuck = false;

struct Msg { std::uint64_t val; std::vector<int> view; bool rel; int by = 0; };
struct Loc { std::vector<Msg> st; int size; };
static std::vector<Loc> locs;
static std::map<std::uintptr_t, int> loc_of;
static std::vector<int> seen[3];
static std::vector<int> acq_pending[3];     // views read by relaxed loads, for acquire fences
static std::vector<int> rel_fence[3];       // view at the last release fence
static bool has_rel_fence[3];
static std::vector<std::pair<char, long>> recent[3];   // plain accesses since the last event of that thread

static ucontext_t ctx[3];
static std::vector<char> stacks[3];
static bool done_[3];
static Plan plan;
static std::vector<Choice> choices;
static int pre_left, stale_left;
static std::mt19937 rng;
static long steps;

static long cell(const void* p) {   // -1: not shared memory
    auto a = reinterpret_cast<std::uintptr_t>(p);
    for(auto& r : regions) if(a >= r.lo && a < r.hi) return long(r.first + (a - r.lo) / 8);
    return -1;
}
void track(const void* base, std::size_t size) {
    auto a = reinterpret_cast<std::uintptr_t>(base);
    auto lo = a & ~std::uintptr_t(7), hi = (a + size + 7) & ~std::uintptr_t(7);
    regions.push_back({lo, hi, cells});
    cells += (hi - lo) / 8;
}
void untrack_all() { regions.clear(); cells = 0; locs.clear(); loc_of.clear(); for(int t = 0; t < 3; ++t) { seen[t].clear(); acq_pending[t].clear(); rel_fence[t].clear(); has_rel_fence[t] = false; recent[t].clear(); } }
std::string& events() { return log_; }
void quiet(bool on) { muted = on; }
void ev(const std::string& s) { if(muted) return; for(auto& r : recent) (void)r; recent[cur].clear(); log_ += s; log_ += '\n'; }
int thread() { return cur; }
bool stuck() { return is_stuck; }
Choice choice(int i) { return choices[i]; }

static int choose(int options) {
    if(options <= 1) return 0;
    int k = int(choices.size()), c;
    if(k < plan.n_prefix) { c = plan.prefix[k]; if(c >= options) c = options - 1; }
    else if(plan.random) c = -1;
    else c = 0;
    if(c < 0) c = int(rng() % unsigned(plan.bias)) ? 0 : int(rng() % unsigned(options));
    choices.push_back({c, options});
    return c;
}
static void switch_to(int t) { int f = cur; cur = t; swapcontext(&ctx[f], &ctx[t]); }
static void point() {               // the other thread may run here
    if(!active || cur == 0) return;
    if(++steps > 4000) {            // neither thread gets on: give up on this execution
        if(!is_stuck) { is_stuck = true; ev("[\"stuck\"," + std::to_string(cur) + "]"); }
        switch_to(0);
    }
    int o = 3 - cur;
    if(done_[o]) return;
    if(pre_left > 0 && choose(2) == 1) { --pre_left; switch_to(o); }
}
static void join(std::vector<int>& a, const std::vector<int>& b) { if(a.size() < b.size()) a.resize(b.size(), 0); for(std::size_t i = 0; i < b.size(); ++i) if(b[i] > a[i]) a[i] = b[i]; }
static std::uint64_t mem(const void* p, int size) { std::uint64_t v = 0; std::memcpy(&v, p, size); return v; }
static void put(void* p, int size, std::uint64_t v) { std::memcpy(p, &v, size); }

static int loc(const void* p, int size) {
    auto a = reinterpret_cast<std::uintptr_t>(p);
    auto it = loc_of.find(a);
    if(it == loc_of.end()) {
        it = loc_of.emplace(a, int(locs.size())).first;
        locs.push_back({{Msg{mem(p, size), {}, true}}, size});
    }
    int l = it->second;
    // plain code changed it: a store nobody released
    if(locs[l].st.back().val != mem(p, size)) locs[l].st.push_back(Msg{mem(p, size), {}, false});
    for(auto& s : seen) if(int(s.size()) <= l) s.resize(l + 1, 0);
    return l;
}
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static std::string n(long v) { return std::to_string(v); }

static std::uint64_t load(const void* p, int size, int mo) {
    long c = cell(p);
    if(c < 0) return mem(p, size);
    point();
    int l = loc(p, size), t = cur, newest = int(locs[l].st.size()) - 1, ts = newest;
    if(active && t && mo != __ATOMIC_SEQ_CST && stale_left > 0) {
        int oldest = seen[t][l];
        int k = choose(newest - oldest + 1);
        if(k) { --stale_left; ts = newest - k; }
    }
    Msg m = locs[l].st[ts];
    seen[t][l] = ts;
    if(acq(mo)) join(seen[t], m.view); else join(acq_pending[t], m.view);
    if(t == 0 || (!acq(mo) && (m.by == t || m.by == 0))) return m.val;      // tells the thread nothing
    ev("[\"ald\"," + n(t) + "," + n(l) + "," + n(c) + "," + n(ts) + "," + (acq(mo) ? "1" : "0") + "]");
    return m.val;
}
static void store(void* p, int size, int mo, std::uint64_t v, bool rmw = false, int rts = -1) {
    long c = cell(p);
    if(c < 0) { put(p, size, v); return; }
    if(!rmw) point();
    int l = loc(p, size), t = cur;
    Msg m{v, {}, rel(mo), cur};
    put(p, size, v);
    int ts = int(locs[l].st.size());
    seen[t][l] = ts;
    if(rel(mo)) m.view = seen[t];
    else if(has_rel_fence[t]) m.view = rel_fence[t];
    if(rmw && rts >= 0) join(m.view, locs[l].st[rts].view);       // release sequence
    if(int(m.view.size()) <= l) m.view.resize(l + 1, 0);
    m.view[l] = ts;
    locs[l].st.push_back(m);
    if(t) ev(std::string("[\"") + (rmw ? "rmw" : "ast") + "\"," + n(t) + "," + n(l) + "," + n(c) + "," + n(ts) + "," + (rel(mo) ? "1" : "0") + (rmw ? acq(mo) ? ",1" : ",0" : "") + "]");
    point();
}
template<typename F>
static std::uint64_t rmw(void* p, int size, int mo, F f) {
    if(cell(p) < 0) { auto o = mem(p, size); put(p, size, f(o)); return o; }
    point();
    int l = loc(p, size), t = cur, ts = int(locs[l].st.size()) - 1;
    Msg m = locs[l].st[ts];
    seen[t][l] = ts;
    if(acq(mo)) join(seen[t], m.view); else join(acq_pending[t], m.view);
    store(p, size, mo, f(m.val), true, ts);
    return m.val;
}
static bool cas(void* p, int size, void* expected, std::uint64_t v, int mo, int fmo) {
    if(cell(p) >= 0) point();
    std::uint64_t e = mem(expected, size), o = mem(p, size);
    if(e == o) { rmw(p, size, mo, [&](std::uint64_t) { return v; }); return true; }
    std::uint64_t x = o;
    if(cell(p) >= 0) { int s = stale_left; stale_left = 0; x = load(p, size, fmo); stale_left = s; }
    put(expected, size, x);
    return false;
}
static void fence(int mo) {
    if(!active) return;
    point();
    int t = cur;
    if(acq(mo)) join(seen[t], acq_pending[t]);
    if(rel(mo)) { rel_fence[t] = seen[t]; has_rel_fence[t] = true; }
    ev("[\"fence\"," + n(t) + "," + (acq(mo) ? "1" : "0") + "," + (rel(mo) ? "1" : "0") + "]");
}
static void plain(char k, const void* p, std::size_t size) {
    if(regions.empty() || muted || cur == 0) return;     // the main thread is ordered with both by fork and join
    auto a = reinterpret_cast<std::uintptr_t>(p);
    for(std::size_t i = 0; i < size || i == 0; i += 8) {
        long c = cell(reinterpret_cast<void*>(a + i));
        if(c < 0) continue;
        bool old = false;
        for(auto& r : recent[cur]) if(r.first == k && r.second == c) old = true;
        if(old) continue;
        log_ += std::string("[\"") + k + "\"," + n(cur) + "," + n(c) + "]\n";
        recent[cur].push_back({k, c});
    }
    if(size > 1) {                                  // an unaligned end
        long c = cell(reinterpret_cast<void*>(a + size - 1)), c0 = cell(p);
        if(c >= 0 && c != c0 && size < 8) log_ += std::string("[\"") + k + "\"," + n(cur) + "," + n(c) + "]\n";
    }
}

struct Start { Body f; void* a; };
static Start starts[3];
static void entry(int t) {
    starts[t].f(starts[t].a);
    done_[t] = true;
    if(!done_[3 - t]) switch_to(3 - t);
    else switch_to(0);
}
int run(Body p, void* pa, Body c, void* ca, const Plan& pl) {
    plan = pl;
    choices.clear();
    pre_left = pl.preemptions; stale_left = pl.stale;
    rng.seed(pl.seed);
    steps = 0; is_stuck = false;
    starts[1] = {p, pa}; starts[2] = {c, ca};
    for(int t = 1; t < 3; ++t) {
        if(stacks[t].empty()) stacks[t].resize(1 << 18);
        done_[t] = false;
        getcontext(&ctx[t]);
        ctx[t].uc_stack.ss_sp = stacks[t].data();
        ctx[t].uc_stack.ss_size = stacks[t].size();
        ctx[t].uc_link = nullptr;
        makecontext(&ctx[t], reinterpret_cast<void (*)()>(entry), 1, t);
        seen[t] = seen[0];
        acq_pending[t].clear(); rel_fence[t].clear(); has_rel_fence[t] = false; recent[t].clear();
    }
    ev("[\"fork\"]");
    active = true;
    int first = 1 + choose(2);
    cur = 0;
    switch_to(first);
    active = false;
    cur = 0;
    for(int t = 1; t < 3; ++t) join(seen[0], seen[t]);
    recent[0].clear();
    ev("[\"join\"]");
    return int(choices.size());
}
}  // namespace mm

using namespace mm;
using u8 = unsigned char; using u16 = unsigned short; using u32 = unsigned int; using u64 = unsigned long;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { plain('w', p, 8); }
void __tsan_vptr_read(void** p) { plain('r', p, 8); }
#define RW(N) \
    void __tsan_read##N(void* p) { plain('r', p, N); } \
    void __tsan_write##N(void* p) { plain('w', p, N); } \
    void __tsan_volatile_read##N(void* p) { plain('r', p, N); } \
    void __tsan_volatile_write##N(void* p) { plain('w', p, N); } \
    void __tsan_read_write##N(void* p) { plain('r', p, N); plain('w', p, N); } \
    void __tsan_unaligned_read##N(void* p) { plain('r', p, N); } \
    void __tsan_unaligned_write##N(void* p) { plain('w', p, N); } \
    void __tsan_unaligned_volatile_read##N(void* p) { plain('r', p, N); } \
    void __tsan_unaligned_volatile_write##N(void* p) { plain('w', p, N); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, std::size_t n) { plain('r', p, n); }
void __tsan_write_range(void* p, std::size_t n) { plain('w', p, n); }
void* __tsan_memcpy(void* d, const void* s, std::size_t n) { plain('r', s, n); plain('w', d, n); return std::memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, std::size_t n) { plain('r', s, n); plain('w', d, n); return std::memmove(d, s, n); }
void* __tsan_memset(void* d, int c, std::size_t n) { plain('w', d, n); return std::memset(d, c, n); }
#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T* p, int mo) { return T(load(const_cast<const T*>(p), B / 8, mo)); } \
    void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { store(const_cast<T*>(p), B / 8, mo, v); } \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { return T(rmw(const_cast<T*>(p), B / 8, mo, [&](std::uint64_t) { return std::uint64_t(v); })); } \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { return T(rmw(const_cast<T*>(p), B / 8, mo, [&](std::uint64_t o) { return std::uint64_t(T(o + v)); })); } \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { return T(rmw(const_cast<T*>(p), B / 8, mo, [&](std::uint64_t o) { return std::uint64_t(T(o - v)); })); } \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { return T(rmw(const_cast<T*>(p), B / 8, mo, [&](std::uint64_t o) { return std::uint64_t(T(o & v)); })); } \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { return T(rmw(const_cast<T*>(p), B / 8, mo, [&](std::uint64_t o) { return std::uint64_t(T(o | v)); })); } \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { return T(rmw(const_cast<T*>(p), B / 8, mo, [&](std::uint64_t o) { return std::uint64_t(T(o ^ v)); })); } \
    bool __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int f) { return cas(const_cast<T*>(p), B / 8, e, v, mo, f); } \
    bool __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int f) { return cas(const_cast<T*>(p), B / 8, e, v, mo, f); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int f) { T x = e; cas(const_cast<T*>(p), B / 8, &x, v, mo, f); return x; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}
}
