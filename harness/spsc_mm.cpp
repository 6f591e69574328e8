// xme::SPSCQueue under the scheduler and memory model of mm.hpp.  Compiled with -fsanitize=thread (instrumentation only).
// Script: "case <queue> <element> <prologue> <producer> <consumer> <epilogue> <max executions> <preemptions> <stale> <random executions> <seed>"
#include "mm.hpp"
#include <xme/container/spsc_queue.hpp>
#include <cstdio>
#include <cstring>
#include <new>
#include <set>
#include <string>
#include <vector>

static long destroyed;
struct Elem2 {
    unsigned long v, chk;
    Elem2(unsigned long x) : v(x), chk(~x) {}
    Elem2(const Elem2& o) : v(o.v), chk(o.chk) {}
    Elem2(Elem2&& o) : v(o.v), chk(o.chk) { o.v = 0; o.chk = 0; }
    ~Elem2() { destroyed = value(); v = 0; chk = 1; }
    long value() const { return chk == ~v ? long(v) : -5; }
};
static long value_of(const Elem2& e) { return e.value(); }
static long value_of(const unsigned long& e) { return long(e); }

static void* block;
static std::size_t block_size;
template<typename T>
struct MmAlloc {
    using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    T* allocate(std::size_t n) { auto s = (n * sizeof(T) + 63) / 64 * 64; void* p = std::aligned_alloc(64, s); std::memset(p, 0, s); mm::track(p, n * sizeof(T)); return static_cast<T*>(p); }
    void deallocate(T* p, std::size_t) { std::free(p); }
};
static std::string num(long v) { return std::to_string(v); }

template<typename Q, typename T>
struct Runner {
    Q* q;
    long next = 1;
    std::string prod, cons;

    void call(const char* op, long v) { mm::ev("[\"call\"," + num(mm::thread()) + ",\"" + op + "\"," + num(v) + "]"); }
    void ret(long r) { mm::ev("[\"ret\"," + num(mm::thread()) + "," + num(r) + "]"); }
    bool push(char how) {
        long v = next++;
        T x(v);
        call("push", v);
        bool ok = how == 'l' ? q->push(std::as_const(x)) : how == 'e' ? q->emplace((unsigned long)v) : q->push(std::move(x));
        ret(ok);
        return ok;
    }
    long wav() { call("wav", 0); long n = long(q->write_available()); ret(n); return n; }
    long rav() { call("rav", 0); long n = long(q->read_available()); ret(n); return n; }
    void take(char how) {
        call("take", 0);
        long got = -4;
        int calls = 0;
        if(how == 'o') {
            destroyed = -4;
            q->pop();
            got = std::is_trivially_destructible_v<T> ? -1 : destroyed;
        }
        else {
            q->consume([&](auto&& x) { ++calls; T y(std::move(x)); got = value_of(y); });
            if(calls != 1) got = -3;
        }
        ret(got);
    }
    void ops(const std::string& s) {
        for(char ch : s) {
            if(ch == 'p' || ch == 'l' || ch == 'e') push(ch);
            else if(ch == 'w') wav();
            else if(ch == 'W') { for(long n = wav(); n > 0; --n) push('p'); }
            else if(ch == 'r') rav();
            else if(ch == 'c' || ch == 'o') { if(rav() > 0) take(ch); }
            else if(ch == 'b') { for(long n = rav(); n > 0; --n) take('c'); }
            else if(ch == 'd') { for(long k = 0; k < 64 && rav() > 0; ++k) take('c'); }
        }
    }
    static void producer(void* r) { auto* x = static_cast<Runner*>(r); x->ops(x->prod); }
    static void consumer(void* r) { auto* x = static_cast<Runner*>(r); x->ops(x->cons); }
};

template<typename Q, typename T, typename Make>
static void one_case(long cap, const char* pro, const char* prod, const char* cons, const char* epi, long max, int pre, int stale, long randoms, unsigned seed, std::FILE* out, Make make) {
    alignas(64) static unsigned char room[sizeof(Q) + 64];
    std::set<std::size_t> known;
    std::vector<int> prefix;
    long runs = 0, distinct = 0, total = 0;
    bool exhausted = false;
    for(long i = 0; i < max + randoms; ++i) {
        mm::Plan plan;
        if(i < max && !exhausted) { plan.prefix = prefix.data(); plan.n_prefix = int(prefix.size()); plan.preemptions = pre; plan.stale = stale; }
        else if(i < max) continue;
        else { plan.random = true; plan.seed = seed + unsigned(i); plan.preemptions = 1000; plan.stale = 1000; plan.bias = 2 + int(i % 7); }
        mm::untrack_all();
        mm::events().clear();
        mm::ev("[\"reset\"," + num(cap) + "]");
        std::memset(room, 0, sizeof room);
        mm::track(room, sizeof(Q));
        Q* q = make(room);
        Runner<Q, T> r{q};
        r.prod = prod; r.cons = cons;
        r.ops(pro);
        int k = mm::run(&Runner<Q, T>::producer, &r, &Runner<Q, T>::consumer, &r, plan);
        ++runs;
        bool stuck = mm::stuck();
        if(!stuck) { r.ops(epi); q->~Q(); }
        if(known.insert(std::hash<std::string>{}(mm::events())).second) {
            ++distinct;
            std::fwrite(mm::events().data(), 1, mm::events().size(), out);
        }
        if(!plan.random) {
            prefix.clear();
            for(int j = 0; j < k; ++j) prefix.push_back(mm::choice(j).taken);
            int j = k - 1;
            while(j >= 0 && mm::choice(j).taken + 1 >= mm::choice(j).options) --j;
            if(j < 0) exhausted = true;
            else { prefix.resize(j + 1); ++prefix[j]; }
        }
    }
    std::printf("%ld %ld %d\n", runs, distinct, int(exhausted));
}

int main(int, char** argv) {
    std::FILE* out = std::fopen(argv[1], "w");
    static char buf[1 << 16];
    while(std::fgets(buf, sizeof buf, stdin)) {
        char qn[16], el[16], pro[128], prod[128], cons[128], epi[128];
        long max, randoms; int pre, stale; unsigned seed;
        if(!std::strncmp(buf, "end", 3)) { std::fputs("[\"quit\"]\n", out); std::fclose(out); std::puts("bye"); return 0; }
        if(std::sscanf(buf, "case %15s %15s %127s %127s %127s %127s %ld %d %d %ld %u", qn, el, pro, prod, cons, epi, &max, &pre, &stale, &randoms, &seed) != 11) return 3;
        std::string q = qn, e = el;
#define STATIC(N, T) { using Q = xme::SPSCQueue<T, xme::Capacity<N>>; one_case<Q, T>(N, pro, prod, cons, epi, max, pre, stale, randoms, seed, out, [](void* p) { return ::new(p) Q(); }); }
#define DYNAMIC(N, T) { using Q = xme::SPSCQueue<T, MmAlloc<T>>; one_case<Q, T>(N, pro, prod, cons, epi, max, pre, stale, randoms, seed, out, [](void* p) { return ::new(p) Q(N); }); }
        if(q == "s1" && e == "E") STATIC(1, Elem2)
        else if(q == "s2" && e == "E") STATIC(2, Elem2)
        else if(q == "s4" && e == "E") STATIC(4, Elem2)
        else if(q == "s8" && e == "E") STATIC(8, Elem2)
        else if(q == "s2" && e == "u") STATIC(2, unsigned long)
        else if(q == "s4" && e == "u") STATIC(4, unsigned long)
        else if(q == "d2" && e == "E") DYNAMIC(2, Elem2)
        else if(q == "d4" && e == "E") DYNAMIC(4, Elem2)
        else if(q == "d8" && e == "E") DYNAMIC(8, Elem2)
        else if(q == "d4" && e == "u") DYNAMIC(4, unsigned long)
        else return 3;
    }
    return 4;
}
