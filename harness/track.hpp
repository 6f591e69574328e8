// Instrumented element type and allocator: every construction, copy, move, assignment, destruction, allocation
// and deallocation becomes one event (a JSON array on a line of its own), which the specifications judge.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <vector>

namespace vp {
struct Boom {};   // what an injected fault throws

struct Block { std::uintptr_t base, size, unit; long id, n; };

struct Log {
    std::FILE* out = nullptr;
    std::map<std::uintptr_t, Block> blocks;       // live blocks of the logging allocators, by address
    std::map<std::uintptr_t, long> temps;         // live objects outside of any block
    long next_block = 1, next_temp = 1;
    long countdown = 0;                           // > 0: the countdown-th throwing action throws
    long actions = 0;                             // throwing actions so far
    long fired = 0;
    long moved_id = 0;

    void open(const char* path) { out = std::fopen(path, "w"); if(!out) std::abort(); setvbuf(out, nullptr, _IOFBF, 1 << 20); }
    void line(const std::string& s) { if(out) { std::fwrite(s.data(), 1, s.size(), out); std::fputc('\n', out); } }
    void reset_ids() { next_block = 1; next_temp = 1; }
    void close() { if(out) std::fclose(out); out = nullptr; }

    // true: this action must throw
    bool fault() {
        ++actions;
        if(countdown > 0 && --countdown == 0) { ++fired; line("[\"throw\"]"); return true; }
        return false;
    }
    // "b,i": cell i of block b, or 0,t for a temporary
    std::string where(const void* p, bool fresh) {
        auto a = reinterpret_cast<std::uintptr_t>(p);
        auto it = blocks.upper_bound(a);
        if(it != blocks.begin()) {
            --it;
            const Block& b = it->second;
            if(a < b.base + b.size)
                return std::to_string(b.id) + "," + std::to_string((a - b.base) / b.unit);
        }
        auto t = temps.find(a);
        if(t == temps.end()) {
            if(!fresh) return "0,0";               // never constructed
            t = temps.emplace(a, next_temp++).first;
        }
        return "0," + std::to_string(t->second);
    }
    void gone(const void* p) { temps.erase(reinterpret_cast<std::uintptr_t>(p)); }
    void ev1(const char* k, const void* p, bool fresh) { if(out || fresh) { auto w = where(p, fresh); line(std::string("[\"") + k + "\"," + w + "]"); } }
    void ev2(const char* k, const void* p, bool fresh, const void* q) {
        auto wq = where(q, false);
        auto w = where(p, fresh);
        line(std::string("[\"") + k + "\"," + w + "," + wq + "]");
    }
};
inline Log& log() { static Log l; return l; }

struct Val { int v; };   // makes an element

constexpr int NOTHROW_MOVE = 1, COPYABLE = 2, QUIET_FAULTS = 4;

// An element that knows its own address: it must be moved by its constructors only.
template<int K>
class Tracked {
public:
    Tracked() : Tracked(Val{0}) {}
    Tracked(Val x) { fault(); v = x.v; self = this; log().ev1("ctor", this, true); }
    Tracked(const Tracked& o) requires((K & COPYABLE) != 0) { fault(); v = o.v; self = this; log().ev2("copy", this, true, &o); }
    Tracked(Tracked&& o) noexcept((K & NOTHROW_MOVE) != 0) {
        if constexpr(!(K & NOTHROW_MOVE)) fault();
        v = o.v; self = this; log().ev2("move", this, true, &o); if(&o != this) o.v = -7;
    }
    Tracked& operator=(const Tracked& o) requires((K & COPYABLE) != 0) { fault(); log().ev2("asg", this, false, &o); v = o.v; return *this; }
    Tracked& operator=(Tracked&& o) noexcept((K & NOTHROW_MOVE) != 0) {
        if constexpr(!(K & NOTHROW_MOVE)) fault();
        log().ev2("masg", this, false, &o);
        if(&o != this) { v = o.v; o.v = -7; }
        return *this;
    }
    ~Tracked() { log().ev1("dtor", this, false); log().gone(this); self = nullptr; v = -9; }
    int value() const { return self == this ? v : -999; }
    friend bool operator==(const Tracked& a, const Tracked& b) { return a.value() == b.value(); }
    friend auto operator<=>(const Tracked& a, const Tracked& b) { return a.value() <=> b.value(); }
private:
    static void fault() { if(log().fault()) throw Boom{}; }
    int v;
    const Tracked* self;
};
using TCopy  = Tracked<COPYABLE | NOTHROW_MOVE>;
using TThrow = Tracked<COPYABLE>;                 // moves may throw
using TMove  = Tracked<NOTHROW_MOVE>;             // move only

template<typename T>
struct LogAlloc {
    using value_type = T;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using is_always_equal = std::true_type;
    using propagate_on_container_swap = std::true_type;
    using propagate_on_container_move_assignment = std::true_type;
    LogAlloc() = default;
    template<typename U> LogAlloc(const LogAlloc<U>&) noexcept {}
    T* allocate(std::size_t n) {
        if(log().fault()) throw Boom{};
        auto* p = static_cast<T*>(::operator new(n ? n * sizeof(T) : 1, std::align_val_t(alignof(T) < 16 ? 16 : alignof(T))));
        auto a = reinterpret_cast<std::uintptr_t>(p);
        Block b{a, n * sizeof(T), sizeof(T), log().next_block++, long(n)};
        log().blocks[a] = b;
        log().line("[\"alloc\"," + std::to_string(b.id) + "," + std::to_string(n) + "]");
        return p;
    }
    void deallocate(T* p, std::size_t n) noexcept {
        auto it = log().blocks.find(reinterpret_cast<std::uintptr_t>(p));
        if(it == log().blocks.end()) { log().line("[\"dealloc\",0," + std::to_string(n) + "]"); return; }
        log().line("[\"dealloc\"," + std::to_string(it->second.id) + "," + std::to_string(n) + "]");
        log().blocks.erase(it);
        ::operator delete(p, std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
    }
    friend bool operator==(const LogAlloc&, const LogAlloc&) noexcept { return true; }
};

template<typename T>
long block_of(const T* p) {   // id of the block that starts at p; 0 if none
    auto it = log().blocks.find(reinterpret_cast<std::uintptr_t>(p));
    return it == log().blocks.end() ? 0 : it->second.id;
}

// ---- plain element types with the same interface ----
template<typename T> struct Elem;
template<> struct Elem<int> { static int make(int v) { return v; } static int read(const int& x) { return x; } static constexpr bool copyable = true; };
template<> struct Elem<unsigned char> { static unsigned char make(int v) { return v; } static int read(const unsigned char& x) { return x; } static constexpr bool copyable = true; };
template<> struct Elem<std::string> {
    static std::string make(int v) { return (v % 2 ? std::string(40, 'x') : std::string()) + std::to_string(v); }
    static int read(const std::string& s) {
        auto t = s.size() > 40 ? s.substr(40) : s;
        if(s.size() > 40 && s.substr(0, 40) != std::string(40, 'x')) return -998;
        return t.empty() ? -997 : std::atoi(t.c_str());
    }
    static constexpr bool copyable = true;
};
template<> struct Elem<std::unique_ptr<int>> {
    static std::unique_ptr<int> make(int v) { return std::make_unique<int>(v); }
    static int read(const std::unique_ptr<int>& p) { return p ? *p : -997; }
    static constexpr bool copyable = false;
};
template<int K> struct Elem<Tracked<K>> {
    static Tracked<K> make(int v) { return Tracked<K>(Val{v}); }
    static int read(const Tracked<K>& x) { return x.value(); }
    static constexpr bool copyable = (K & COPYABLE) != 0;
};
struct alignas(32) Wide { int v; char pad[60]; int w; bool operator==(const Wide&) const = default; };
template<> struct Elem<Wide> {
    static Wide make(int v) { Wide x{}; x.v = v; x.w = ~v; return x; }
    static int read(const Wide& x) { return reinterpret_cast<std::uintptr_t>(&x) % 32 == 0 && x.w == ~x.v ? x.v : -998; }
    static constexpr bool copyable = true;
};

// ---- script input ----
struct Script {
    std::vector<std::string> tok;
    std::string raw;
    bool next() {
        static char buf[1 << 16];
        [[maybe_unused]] static const int lines = setvbuf(stdout, nullptr, _IOLBF, 1 << 16);      // a crash loses no answer
        if(!std::fgets(buf, sizeof buf, stdin)) return false;
        raw = buf;
        while(!raw.empty() && (raw.back() == '\n' || raw.back() == '\r')) raw.pop_back();
        tok.clear();
        std::size_t i = 0;
        while(i < raw.size()) {
            while(i < raw.size() && raw[i] == ' ') ++i;
            auto j = i;
            while(j < raw.size() && raw[j] != ' ') ++j;
            if(j > i) tok.push_back(raw.substr(i, j - i));
            i = j;
        }
        return !tok.empty() || next();
    }
    const std::string& op() const { return tok[0]; }
    long num(std::size_t i) const { return std::atol(tok.at(i).c_str()); }
    std::vector<int> rest(std::size_t i) const { std::vector<int> r; for(; i < tok.size(); ++i) r.push_back(std::atoi(tok[i].c_str())); return r; }
};
// single-pass iterator over a vector of elements, moving or copying them out
template<typename T, bool Move>
struct InputIt {
    using iterator_concept = std::input_iterator_tag;
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using reference = std::conditional_t<Move, T&&, const T&>;
    using pointer = void;
    struct Src { std::vector<T>* v; std::size_t i = 0; };
    Src* s = nullptr;
    reference operator*() const { if constexpr(Move) return std::move((*s->v)[s->i]); else return (*s->v)[s->i]; }
    InputIt& operator++() { ++s->i; return *this; }
    void operator++(int) { ++s->i; }
    struct Sent { };
    friend bool operator==(const InputIt& a, Sent) { return a.s->i == a.s->v->size(); }
};
}  // namespace vp
