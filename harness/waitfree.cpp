// One side of the queue is stopped after every machine instruction of its operation in turn, and there the other side carries out
// whole operations (spec/WaitFree).   lines: case <queue> <index> <elements> <outer> <inner>...
#include "track.hpp"
#include <csignal>
#include <functional>
#include <set>
#include <ucontext.h>
#include <unistd.h>
#include <xme/container/spsc_queue.hpp>
using vp::Script;
struct Rich {                                             // knows where it was made, and owns nothing
    long v, w; const Rich* self;
    Rich(long x) : v(x), w(~x), self(this) {}
    Rich(const Rich& o) : v(o.v), w(o.w), self(this) {}
    Rich(Rich&& o) noexcept : v(o.v), w(o.w), self(this) { o.w = 0; }
    Rich& operator=(const Rich&) = delete;
    ~Rich() { v = w = 0; self = nullptr; }
    long value() const { return self == this && w == ~v ? v : -1; }
};
static long value(long x) { return x; }
static long value(const Rich& x) { return x.value(); }

static volatile long countdown, steps;
static std::function<void()> nested;
static void on_trap(int, siginfo_t*, void* u) {
    steps = steps + 1;
    const long left = countdown; countdown = left - 1;
    if(left == 0) {
        static_cast<ucontext_t*>(u)->uc_mcontext.gregs[REG_EFL] &= ~0x100LL;
        nested();
    }
}
static void on_alarm(int) { static const char m[] = "stuck\n"; (void) !write(1, m, sizeof m - 1); _exit(3); }
[[gnu::noinline]] static void step_on() { asm volatile("pushfq\n\torq $0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc"); }
[[gnu::noinline]] static void step_off() { asm volatile("pushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc"); }

template<typename T, typename Q> struct Side {
    Q& q; long last = 0;
    long run(const std::string& op) { long r = -9; run(code(op), r); return r; }
    static int code(const std::string& op) {
        static const char* const names[] = {"push", "pushm", "emplace", "wa", "ra", "pop", "consume"};
        for(int i = 0; i < 7; ++i) if(op == names[i]) return i;
        std::abort();
    }
    [[gnu::noinline]] void run(int op, long& out) {
        switch(op) {
            case 0: { const T t(last + 1); out = q.push(t); last += out; break; }
            case 1: out = q.push(T(last + 1)); last += out; break;
            case 2: out = q.emplace(last + 1); last += out; break;
            case 3: out = q.write_available(); break;
            case 4: out = q.read_available(); break;
            case 5: q.pop(); out = 0; break;
            case 6: q.consume([&](T&& t) { const long a = value(t); asm volatile("" ::: "memory"); const long b = value(t); out = a == b ? a : -2; }); break;
        }
    }
};
template<typename T, typename Q> static std::string one(const Script& in, long& k, bool& done, std::function<Q*()> make) {
    std::unique_ptr<Q> q(make());
    Side<T, Q> s{*q};
    const long off = in.num(2), n = in.num(3);
    for(long i = 0; i < off; ++i) { s.run("push"); s.run("pop"); }
    for(long i = 0; i < n; ++i) s.run("push");
    const int outer = s.code(in.tok[4]);
    int inner[4]; long res[4]; int m = 0;
    for(std::size_t i = 5; i < in.tok.size(); ++i) inner[m++] = s.code(in.tok[i]);
    bool ran = false;
    nested = [&] { ran = true; for(int i = 0; i < m; ++i) s.run(inner[i], res[i]); };
    long r = -9;
    countdown = k;
    step_on();
    s.run(outer, r);
    step_off();
    done = !ran;
    if(!ran) nested();
    std::string o = std::to_string(r) + "|";
    for(int i = 0; i < m; ++i) o += (i ? "," : "") + std::to_string(res[i]);
    o += "|";
    for(long i = 0, e = q->read_available(); i < e; ++i) o += (i ? "," : "") + std::to_string(s.run("consume"));
    return o;
}
template<typename T, typename Q> static void sweep(const Script& in, std::function<Q*()> make) {
    std::string first, last; std::set<std::string> all;
    bool done = false; long k = 0;
    alarm(60);
    for(; !done; ++k) { last = one<T, Q>(in, k, done, make); if(!k) first = last; all.insert(last); }
    alarm(0);
    std::string o = first + " " + last;
    for(auto& a : all) o += " " + a;
    std::puts(o.c_str());
}
template<typename T> static void kind(const std::string& q, const Script& in) {
    const long n = std::atol(q.c_str() + 2);
    if(q[1] == 'd') return sweep<T, xme::SPSCQueue<T>>(in, [=] { return new xme::SPSCQueue<T>(n); });
    if(n == 2) return sweep<T, xme::SPSCQueue<T, xme::Capacity<2>>>(in, [] { return new xme::SPSCQueue<T, xme::Capacity<2>>; });
    if(n == 4) return sweep<T, xme::SPSCQueue<T, xme::Capacity<4>>>(in, [] { return new xme::SPSCQueue<T, xme::Capacity<4>>; });
    if(n == 8) return sweep<T, xme::SPSCQueue<T, xme::Capacity<8>>>(in, [] { return new xme::SPSCQueue<T, xme::Capacity<8>>; });
    std::abort();
}
int main() {
    struct sigaction a{}; a.sa_sigaction = on_trap; a.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &a, nullptr);
    signal(SIGALRM, on_alarm);
    long total = 0;
    for(Script in; in.next();) {
        if(in.op() == "end") break;
        if(in.op() == "reset") { std::puts("ok"); continue; }
        steps = 0;
        in.tok[1][0] == 'l' ? kind<long>(in.tok[1], in) : kind<Rich>(in.tok[1], in);
        total += steps;
    }
    std::fprintf(stderr, "stops %ld\n", total);
    std::puts("bye");
}
