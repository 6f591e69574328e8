// Two threads with objects of their own and a constant one they share (spec/Threads), under the thread sanitizer.
//   <kind> as argument;  <thread> <op> <x>: the thread carries out the operation and the answer is what it saw
// The threads take turns by relaxed atomics, which order nothing: accesses of both to the same memory are reported whenever they happen.
#include "track.hpp"
#include <array>
#include <atomic>
#include <memory>
#include <thread>
#include <range/v3/all.hpp>
#include <xme/container/aligned_data.hpp>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/container/pair.hpp>
#include <xme/container/spsc_queue.hpp>
#include <xme/container/tuple.hpp>
#include <xme/core/algorithm/find.hpp>
#include <xme/core/algorithm/reverse.hpp>
#include <xme/core/functional/bind.hpp>
#include <xme/core/functional/delegate.hpp>
#include <xme/core/functional/scoped_delegate.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>
#include <xme/core/utility/to_unsigned.hpp>
#include <xme/hal/platform.hpp>
#include <xme/hal/shared_library.hpp>
#include <xme/math/math.hpp>
#include <xme/math/matrices/functions.hpp>
#include <xme/math/matrices/perspective.hpp>
#include <xme/math/matrices/transformation.hpp>
#include <xme/math/quaternion.hpp>
#include <xme/math/scalars/functions.hpp>
#include <xme/math/scalars/trigonometry.hpp>
#include <xme/math/vectors/functions.hpp>
#include <xme/math/vectors/geometry.hpp>
#include <xme/ranges/destroy.hpp>
#include <xme/ranges/uninitialized.hpp>
static std::atomic<bool> raced = false;
extern "C" void __tsan_on_report(void*) { raced.store(true, std::memory_order_relaxed); }
extern "C" const char* __tsan_default_options() { return "exitcode=0:report_signal_unsafe=0:history_size=5:log_path=/dev/null"; }
using Ints = std::vector<int>;
static std::string word(int v) { return "the number with the many letters " + std::string(v, 'i'); }
static int from(const std::string& s) { return int(s.size()) - int(word(0).size()); }
static const Ints wrong{15};
template<typename T> static T value(int v) { if constexpr(std::is_same_v<T, std::string>) return word(v); else return T(v); }
template<typename T> static int number(const T& v) { if constexpr(std::is_same_v<T, std::string>) return from(v); else return int(v); }
template<typename R> static Ints list(const R& r) { Ints o; for(auto& v : r) o.push_back(number(v)); return o; }

template<typename T> struct ArrayKind {
    xme::Array<T> a;
    void add(int x) { if(x == 1) a.push_back(value<T>(x)); else if(x == 2) a.emplace_back(value<T>(x)); else a.insert(a.end(), value<T>(x)); }
    void drop() { if(a.size() == 2) a.erase(a.end() - 1); else a.pop_back(); }
    void clear() { if(a.size() == 1) a.reserve(a.capacity() + 4); a.clear(); }
    void reverse() { xme::reverse(a); }
    Ints read() const {
        Ints o = list(a), b, i;
        for(auto r = xme::ReverseIterator(a.end()); r != xme::ReverseIterator(a.begin()); ++r) b.insert(b.begin(), number(*r));
        for(std::size_t n = 0; n < a.size(); ++n) i.push_back(number(a[n]));
        if(b != o || i != o || a.empty() != o.empty() || a.capacity() < o.size() || (!o.empty() && (number(a.front()) != o[0] || number(a.back()) != o.back() || a.data() != &a[0]))) return wrong;
        const auto at = xme::find(a, value<T>(3));
        if(at - a.begin() != std::find(o.begin(), o.end(), 3) - o.begin()) return wrong;
        return o;
    }
    bool same(const ArrayKind& k) const { return list(a) == list(k.a); }
};
struct ListKind {
    xme::LinkedList<std::string> a;
    void add(int x) { if(x == 1) a.push_front(word(x)); else if(x == 2) a.emplace_front(word(x)); else a.insert_after(a.before_begin(), word(x)); }
    void drop() { if(++a.begin() != a.end()) a.pop_front(); else a.erase_after(a.before_begin()); }
    void clear() { a.clear(); }
    void reverse() { a.reverse(); }
    Ints read() const {
        Ints o = list(a);
        if(a.empty() != o.empty() || (!o.empty() && (from(a.front()) != o[0] || from(*++a.cbefore_begin()) != o[0]))) return wrong;
        std::reverse(o.begin(), o.end());
        return o;
    }
    bool same(const ListKind& k) const { return list(a) == list(k.a); }
};
struct HeapKind {
    xme::Heap<int> a;
    void add(int x) { if(x == 1) a.push(x); else a.emplace(x); }
    void drop() { a.pop(); }
    void clear() { while(!a.empty()) a.pop(); }
    void reverse() {}
    Ints read() const { Ints o = list(a); if(a.size() != o.size() || (!o.empty() && a.front() != o[0])) return wrong; std::sort(o.rbegin(), o.rend()); return o; }
    bool same(const HeapKind& k) const { return read() == k.read(); }
};
// what can hold any value holds the elements
template<typename H> struct Holder {
    H h = H::make({});
    void put(Ints v) { h = H::make(std::move(v)); }
    void add(int x) { Ints v = h.get(); v.push_back(x); put(v); }
    void drop() { Ints v = h.get(); v.pop_back(); put(v); }
    void clear() { put({}); }
    void reverse() { Ints v = h.get(); std::reverse(v.begin(), v.end()); put(v); }
    Ints read() const { return h.get(); }
    bool same(const Holder& k) const { return h.get() == k.h.get(); }
};
struct InDelegate {
    xme::Delegate<Ints(int)> d;
    struct Big { Ints v; Ints operator()(int n) const { return n == 1 ? v : wrong; } };
    static InDelegate make(Ints v) { if(v.empty()) return {+[](int n) { return n == 1 ? Ints() : wrong; }}; if(v.size() == 1) return {[x = v[0]](int n) { return n == 1 ? Ints{x} : wrong; }}; return {Big{v}}; }
    Ints get() const { return d ? d(1) : wrong; }
};
static Ints both(const Ints& a, const Ints& b, int x) { return x == 4 && a == b ? a : wrong; }
static auto bind(const Ints& v) { return xme::bind_back(xme::bind_front(&both, v, v), 4); }
struct InBound {
    std::vector<decltype(bind({}))> b;
    static InBound make(const Ints& v) { return {{bind(v)}}; }
    Ints get() const { return b[0](); }
};
struct InTuple {
    xme::Tuple<Ints, std::string, xme::Pair<int, Ints>> t;
    static InTuple make(const Ints& v) { return {xme::Tuple<Ints, std::string, xme::Pair<int, Ints>>{v, word(int(v.size())), xme::Pair<int, Ints>{1, v}}}; }
    Ints get() const {
        const auto c = xme::tuple_cat(t, xme::make_tuple(1));
        return xme::get<0>(t) == xme::get<2>(t).second && xme::get<0>(c) == xme::get<0>(t) && from(xme::get<1>(t)) == int(xme::get<0>(t).size()) ? xme::apply([](const Ints& a, const auto&...) { return a; }, t) : wrong;
    }
};
struct InAligned {
    std::shared_ptr<xme::AlignedData<Ints, 64>> p;             // each object its own
    static std::shared_ptr<xme::AlignedData<Ints, 64>> fresh(const Ints& v) { return {new xme::AlignedData<Ints, 64>(v), [](auto* d) { std::destroy_at(d->data()); delete d; }}; }
    static InAligned make(const Ints& v) { InAligned a; a.p = fresh(v); return a; }
    InAligned() = default;
    InAligned(const InAligned& o) : p(fresh(*o.p->data())) {}
    InAligned& operator=(const InAligned& o) { p = fresh(*o.p->data()); return *this; }
    Ints get() const { const auto& d = *p; return d.address() == d.data() ? *d.data() : wrong; }
};
struct InQueue {
    std::shared_ptr<xme::SPSCQueue<int, xme::Capacity<8>>> q;
    Ints v;
    static InQueue make(const Ints& v) { InQueue a; a.q = std::make_shared<xme::SPSCQueue<int, xme::Capacity<8>>>(); a.v = v; for(int i : v) a.q->push(i); return a; }
    InQueue() = default;
    InQueue(const InQueue& o) : InQueue(make(o.v)) {}
    InQueue& operator=(InQueue o) { q = o.q; v = o.v; return *this; }
    InQueue(InQueue&&) = default;
    Ints get() const {
        const auto& k = *q;
        if(k.read_available() != v.size() || k.write_available() < 3) return wrong;
        auto mine = make(v); Ints o;
        while(mine.q->read_available()) { mine.q->consume([&](int i) { o.push_back(i); }); }
        return o == v ? v : wrong;
    }
};
struct InRaw {                                                 // raw memory, scopes and searches
    xme::Array<int> a;
    static InRaw make(const Ints& v) { return {xme::Array<int>(v.begin(), v.end())}; }
    Ints get() const {
        std::allocator<std::string> alloc; Ints o; bool left = false;
        {
            std::string* p = alloc.allocate(8);
            xme::ScopedDelegate s([&] { left = true; alloc.deallocate(p, 8); });
            std::vector<std::string> w; for(int i : a) w.push_back(word(i));
            auto e = xme::ranges::uninitialized_copy_a(w.begin(), w.end(), p, p + 8, alloc).second;
            for(auto i = p; i != e; ++i) o.push_back(from(*i));
            xme::ranges::destroy_a(p, e, alloc);
        }
        xme::Array<int> b(a.begin(), a.end()); xme::reverse(b); xme::reverse(b.begin(), b.end());
        if(!left || list(b) != list(a)) return wrong;
        return o;
    }
};
struct InSystem {
    Ints v; std::shared_ptr<xme::hal::SharedLibrary> lib;
    static InSystem make(const Ints& v) { InSystem s; s.v = v; return s; }
    Ints get() const {
        static const char name[] = "XME_VERIF_SHARED=";
        const char* e = xme::hal::get_environment_variable(std::string_view(name, 16));
        if(!e || std::strcmp(e, "a value that is long enough to be stored elsewhere")) return wrong;
        xme::hal::SharedLibrary l("libm.so.6"), m(std::move(l));
        if(!m.is_open() || l.is_open()) return wrong;
        auto f = m.proc_address<double (*)(double)>(std::string_view("sqrt2", 4));
        if(!f || f(9) != 3) return wrong;
        m.close();
        return v;
    }
};
// numbers and views have a fixed size: elements are replaced
struct NumbersKind {
    xme::math::Vector<double, 2> v{2, 2};
    void add(int x) { v = {v[1], x}; }
    void drop() {} void clear() {}
    void reverse() { std::swap(v.x, v.y); }
    Ints read() const {
        using namespace xme::math;
        const Vector<double, 3> a(v, 1), b(1, 2, 3); const Vector<double, 4> c(v, 1, 1); const Matrix<double, 4, 4> m(2); const Quaternion<double> q(v[0], v[1], 0, 1), one(1, 0, 0, 0);
        bool ok = dot(a, b) == v.x + 2 * v.y + 3 && dot(cross(a, b), a) == 0 && (m * c) == c * 2 && determinant(m) == 16 && transpose(m) == m && q * one == q && (a + b) - b == a && lerp(a, b, 0.0) == a && sign(c)[0] == 1;
        ok = ok && std::abs(length(normalize(a)) - 1) < 1e-9 && std::abs(xme::math::sin(radians(90.0)) - 1) < 1e-9 && std::abs(xme::math::cot(xme::math::pi / 4) - 1) < 1e-9;
        const auto r = rotate(translate(Matrix<double, 4, 4>(1), b), xme::math::pi, Vector<double, 3>(0, 0, 1)); const auto p = perspective(1.0, 1.0, 0.1, 10.0); const auto o = ortho(-1.0, 1.0, -1.0, 1.0, 0.1, 10.0);
        ok = ok && std::abs(r[0][0] + 1) < 1e-9 && std::abs(p[3][3]) < 1e-9 && std::abs(o[3][3] - 1) < 1e-9 && distance(a, a) == 0 && reflect(a, Vector<double, 3>(0)) == a && outer_product(b, b)[0][1] == 2;
        const Matrix<double, 2, 2> m2(3); const Matrix<double, 3, 3> m3(2); Matrix<double, 3, 2> wide; for(int i = 0; i < 3; ++i) for(int j = 0; j < 2; ++j) wide[i][j] = i + v[j];
        ok = ok && determinant(m2) == 9 && determinant(m3) == 8 && transpose(m3) == m3 && transpose(wide)[1][2] == 2 + v[1] && transpose(transpose(wide)) == wide && hadamard_product(m3, m3)[1][1] == 4 && (m3 * b)[2] == 6 && (m3 * m3)[0][0] == 4;
        ok = ok && faceforward(a, b, b) == -a && lerp(a, b, Vector<double, 3>(0.0)) == a && xme::math::sign(-3) == -1 && degrees(radians(v[0])) - v[0] < 1e-9 && std::abs(sec(0.0) - 1) < 1e-9 && std::abs(csc(xme::math::pi / 2) - 1) < 1e-9 && std::abs(arctan(v[0] / 4) - std::atan(v[0] / 4)) < 1e-9 && arcsin(0.0) == 0 && std::abs(arccos(1.0)) < 1e-9 && std::abs(cot(v[0] / 4) - 1 / std::tan(v[0] / 4)) < 1e-9;
        const auto s = scale(Matrix<double, 4, 4>(1), b); ok = ok && s[1][1] == 2 && m.row(1)[1] == 2 && m.column(1)[1] == 2 && std::abs(perspective_lh(1.0, 1.0, 0.1, 10.0)[2][3] - 1) < 1e-9 && std::abs(ortho_rh(-1.0, 1.0, -1.0, 1.0, 0.1, 10.0)[0][0] - 1) < 1e-9;
        ok = ok && reflect(a, b) == a - b * 2 * dot(a, b) && xme::to_unsigned(int(v.x)) == unsigned(v.x);
        return ok ? Ints{int(v.x), int(v.y)} : wrong;
    }
    bool same(const NumbersKind& k) const { return v == k.v; }
};
struct ViewKind {
    std::array<std::string, 2> cells{word(2), word(2)};
    void add(int x) { xme::ArrayView<std::string> w(cells.data(), 2); w[0] = w[1]; w.last(1)[0] = word(x); }
    void drop() {} void clear() {}
    void reverse() { xme::ArrayView<std::string, 2> w(cells.data(), cells.data() + 2); std::swap(w.front(), w.back()); }
    Ints read() const {
        const xme::ArrayView<const std::string> w(cells.data(), 2); const xme::ArrayView<const std::string, 2> f(cells);
        if(w.size() != 2 || w.size_bytes() != sizeof cells || from(w.subview(1, 1).front()) != from(f.back()) || w.empty()) return wrong;
        return list(w);
    }
    bool same(const ViewKind& k) const { return list(cells) == list(k.cells); }
};

struct Worker { std::atomic<unsigned> command{0}; std::atomic<unsigned long> answer{0}; };
static const char* const names[] = {"quit", "add", "drop", "clear", "reverse", "copy", "move", "swap", "read", "peek", "same", "born"};
static unsigned long pack(unsigned seq, const Ints& v) {
    unsigned long a = v.size();
    for(std::size_t i = 0; i < v.size() && i < 10; ++i) a |= (unsigned long)(v[i] & 15) << (4 + 4 * i);
    return a | (unsigned long)(seq) << 48;
}
template<typename K> static Ints perform(K& own, const K& shared, int op, int x) {
    switch(op) {
        case 1: own.add(x); return own.read();
        case 2: own.drop(); return own.read();
        case 3: own.clear(); return own.read();
        case 4: own.reverse(); return own.read();
        case 5: own = shared; return own.read();
        case 6: { K k(shared); own = std::move(k); return own.read(); }
        case 7: { K k(shared); std::ranges::swap(own, k); return own.read(); }
        case 8: return own.read();
        case 9: return shared.read();
        case 10: return {own.same(shared)};
        case 11: { K k = shared; k.add(2); K l(k); if constexpr(requires { k.a; }) return std::as_const(l).read(); else if constexpr(requires { k.h; }) return l.read(); else { k = shared; Ints o = k.read(); o.push_back(2); return o; } }
    }
    return wrong;
}
template<typename K> static void work(Worker& w, const K& shared) {
    K own;
    for(unsigned last = 0;;) {
        const unsigned c = w.command.load(std::memory_order_relaxed);
        if(c >> 16 == last) { std::this_thread::yield(); continue; }
        last = c >> 16;
        if((c >> 8 & 255) == 0) return;
        Ints o;
        try { o = perform(own, shared, int(c >> 8 & 255), int(c & 255)); } catch(...) { o = wrong; }
        w.answer.store(pack(last, o), std::memory_order_relaxed);
    }
}
template<typename K> struct Session {
    K shared; Worker w[2]; unsigned seq[2] = {0, 0}; std::vector<std::thread> threads;
    Session() {
        if constexpr(requires { shared.drop(); }) shared.clear();
        shared.add(1); shared.add(3);
        for(auto& i : w) threads.emplace_back([this, &i] { work<K>(i, shared); });
    }
    unsigned long tell(int t, int op, int x) {
        const unsigned s = seq[t] = seq[t] % 60000 + 1;
        w[t].answer.store(0, std::memory_order_relaxed);
        w[t].command.store(s << 16 | unsigned(op) << 8 | unsigned(x), std::memory_order_relaxed);
        if(!op) return 0;
        for(;;) { const auto a = w[t].answer.load(std::memory_order_relaxed); if(a >> 48 == s) return a; std::this_thread::yield(); }
    }
    ~Session() { tell(0, 0, 0); tell(1, 0, 0); for(auto& i : threads) i.join(); }
};
template<typename K> static int serve() {
    std::unique_ptr<Session<K>> s;
    for(vp::Script in; in.next();) {
        if(in.op() == "end") break;
        if(in.op() == "reset") { s.reset(); s = std::make_unique<Session<K>>(); std::puts("ok"); continue; }
        int op = 0;
        while(in.tok[1] != names[op]) ++op;
        const auto a = s->tell(in.num(0) - 1, op, in.num(2));
        std::string o;
        for(unsigned i = 0; i < (a & 15); ++i) o += (i ? " " : "") + std::to_string(a >> (4 + 4 * i) & 15);
        if(raced.exchange(false)) o += " while the threads use the same memory";
        std::puts(o.c_str()); std::fflush(stdout);
    }
    s.reset();
    std::puts("bye");
    return 0;
}
int main(int, char** argv) {
    ::setenv("XME_VERIF_SHARED", "a value that is long enough to be stored elsewhere", 1);
    const std::string kind = argv[1];
    if(kind == "array") return serve<ArrayKind<int>>();
    if(kind == "words") return serve<ArrayKind<std::string>>();
    if(kind == "list") return serve<ListKind>();
    if(kind == "heap") return serve<HeapKind>();
    if(kind == "delegate") return serve<Holder<InDelegate>>();
    if(kind == "bound") return serve<Holder<InBound>>();
    if(kind == "tuple") return serve<Holder<InTuple>>();
    if(kind == "aligned") return serve<Holder<InAligned>>();
    if(kind == "queue") return serve<Holder<InQueue>>();
    if(kind == "raw") return serve<Holder<InRaw>>();
    if(kind == "system") return serve<Holder<InSystem>>();
    if(kind == "numbers") return serve<NumbersKind>();
    if(kind == "view") return serve<ViewKind>();
    if(kind == "control") { struct C : ListKind { void add(int x) { static int n; ++n; ListKind::add(x); } }; return serve<C>(); }
    return 2;
}
