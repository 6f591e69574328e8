// Arrays whose allocators cannot stand in for each other (spec/Allocators).  argv: element type.
#include "track.hpp"
#include <optional>
#include <xme/container/array.hpp>
using namespace vp;

struct Arena { std::map<void*, std::size_t> blocks; };
inline std::map<int, Arena> arenas;
inline std::map<const void*, int> cells;                // elements made by an allocator, and which one
inline std::string trouble;
inline void bad(const std::string& s) { if(trouble.empty()) trouble = s; }

template<typename T, bool Hooks> struct ArenaAlloc {
    using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    using is_always_equal = std::false_type;
    using propagate_on_container_swap = std::true_type; using propagate_on_container_move_assignment = std::true_type; using propagate_on_container_copy_assignment = std::true_type;
    int id = 0;
    ArenaAlloc() = default;
    explicit ArenaAlloc(int i) : id(i) {}
    T* allocate(std::size_t n) {
        auto p = static_cast<T*>(::operator new(n * sizeof(T) + 1));
        arenas[id].blocks[p] = n;
        return p;
    }
    void deallocate(T* p, std::size_t n) noexcept {
        auto& b = arenas[id].blocks;
        auto it = b.find(p);
        if(it == b.end()) { bad("arena " + std::to_string(id) + " was given back memory that is not its own"); return; }
        if(it->second != n) bad("a block of " + std::to_string(it->second) + " was given back as one of " + std::to_string(n));
        for(std::size_t i = 0; i < it->second; ++i) if(cells.contains(p + i)) bad("memory was given back with an element in it");
        b.erase(it);
        ::operator delete(p);
    }
    template<typename U, typename... Args> void construct(U* p, Args&&... args) requires Hooks {
        bool in = false;
        for(auto& [b, n] : arenas[id].blocks) in = in || (p >= static_cast<T*>(b) && p < static_cast<T*>(b) + n);
        if(!in) bad("an element was constructed outside of the arena of its allocator");
        ::new(static_cast<void*>(p)) U(std::forward<Args>(args)...);
        cells[p] = id;
    }
    template<typename U> void destroy(U* p) requires Hooks {
        auto it = cells.find(p);
        if(it == cells.end()) bad("what was destroyed is not an element");
        else { if(it->second != id) bad("an element was destroyed by another allocator"); cells.erase(it); }
        p->~U();
    }
    friend bool operator==(const ArenaAlloc& a, const ArenaAlloc& b) noexcept { return a.id == b.id; }
};

struct Counted {                                         // counts what lives
    int v; const Counted* me;
    static inline int alive = 0;
    Counted(int x) : v(x), me(this) { ++alive; }
    Counted(const Counted& o) : v(o.v), me(this) { ++alive; }
    Counted(Counted&& o) noexcept : v(o.v), me(this) { o.v = -1; ++alive; }
    Counted& operator=(const Counted&) = default; Counted& operator=(Counted&& o) noexcept { v = o.v; if(&o != this) o.v = -1; return *this; }
    ~Counted() { --alive; if(me != this) bad("an element was moved by something else than its constructor"); }
};

template<typename T, bool Hooks> struct Run {
    using Al = ArenaAlloc<T, Hooks>; using Arr = xme::Array<T, Al>;
    std::optional<Arr> s[3];
    int next = 1;
    T make() { return T(next++ % 100); }
    std::vector<T> some(long m) { std::vector<T> r; for(long i = 0; i < m; ++i) r.push_back(make()); return r; }
    static std::string where(Arr& x) {
        if(x.size() == 0) return "-";
        const void* p = std::addressof(*x.begin());
        for(auto& [id, ar] : arenas) if(ar.blocks.contains(const_cast<void*>(p))) return std::to_string(id);
        return "?";
    }
    template<typename... A> void renew(int i, A&&... a) { s[i].reset(); s[i].emplace(std::forward<A>(a)...); }
    void sized(const std::string& op, int i, long k, long m) {
        auto v = some(m);
        auto go = [&](auto&&... al) {
            if(op == "fill") { T x = make(); renew(i, std::size_t(m), x, al...); }
            else if(op == "il") { T x = make(); switch(m) { case 0: renew(i, std::initializer_list<T>{}, al...); break; case 1: renew(i, std::initializer_list<T>{x}, al...); break; case 2: renew(i, std::initializer_list<T>{x, x}, al...); break; case 3: renew(i, std::initializer_list<T>{x, x, x}, al...); break; default: renew(i, std::initializer_list<T>{x, x, x, x}, al...); } }
            else if(op == "range") renew(i, v.begin(), v.end(), al...);
            else if(op == "input") { typename InputIt<T, true>::Src src{&v}; renew(i, InputIt<T, true>{&src}, typename InputIt<T, true>::Sent{}, al...); }
            else renew(i, v, al...);
        };
        if(k < 0) go(); else go(Al(int(k)));
    }
    void step(const Script& in) {
        const auto& op = in.op();
        const int i = int(in.num(1)), j = 3 - i;
        Arr& x = *s[i];
        auto num = [&](int k) { return in.num(k + 2); };
        if(op == "alloc") renew(i, Al(int(num(0))));
        else if(op == "cap") renew(i, std::size_t(num(1)), Al(int(num(0))));
        else if(op == "none") renew(i);
        else if(op == "fill" || op == "il" || op == "range" || op == "input" || op == "rng") sized(op, i, num(0), num(1));
        else if(op == "copy") renew(i, std::as_const(*s[j]));
        else if(op == "move") renew(i, std::move(*s[j]));
        else if(op == "assign") x = std::as_const(*s[j]);
        else if(op == "massign") x = std::move(*s[j]);
        else if(op == "assignself") { auto& y = x; x = std::as_const(y); }
        else if(op == "massignself") { auto& y = x; x = std::move(y); }
        else if(op == "swapself") x.swap(x);
        else if(op == "swap") x.swap(*s[j]);
        else if(op == "ilassign") { T v = make(); switch(num(0)) { case 0: x = std::initializer_list<T>{}; break; case 1: x = {v}; break; case 2: x = {v, v}; break; case 3: x = {v, v, v}; break; default: x = {v, v, v, v}; } }
        else if(op == "push") x.push_back(make());
        else if(op == "pushl") { const T v = make(); x.push_back(v); }
        else if(op == "emplace") x.emplace_back(next++);
        else if(op == "ins") x.insert(std::as_const(x).begin() + num(0), make());
        else if(op == "insl") { const T v = make(); x.insert(std::as_const(x).begin() + num(0), v); }
        else if(op == "insr") { auto v = some(num(1)); x.insert(std::as_const(x).begin() + num(0), v.begin(), v.end()); }
        else if(op == "insin") { auto v = some(num(1)); typename InputIt<T, true>::Src src{&v}; x.insert(std::as_const(x).begin() + num(0), InputIt<T, true>{&src}, typename InputIt<T, true>::Sent{}); }
        else if(op == "pushr") { auto v = some(num(0)); x.push_back(v); }
        else if(op == "pushin") { auto v = some(num(0)); typename InputIt<T, true>::Src src{&v}; x.push_back(InputIt<T, true>{&src}, typename InputIt<T, true>::Sent{}); }
        else if(op == "pop") x.pop_back();
        else if(op == "erase") x.erase(std::as_const(x).begin() + num(0));
        else if(op == "eraser") x.erase(std::as_const(x).begin() + num(0), std::as_const(x).begin() + num(1));
        else if(op == "clear") x.clear();
        else if(op == "reserve") x.reserve(std::size_t(num(0)));
        else if(op == "resize") x.resize(std::size_t(num(0)));
        else std::abort();
    }
    void run() {
        Script in;
        while(in.next()) {
            if(in.op() == "reset" || in.op() == "end") {
                s[1].reset(); s[2].reset();
                for(auto& [id, ar] : arenas) for(auto& [p, n] : ar.blocks) if(n) bad("memory of arena " + std::to_string(id) + " was not given back");
                if(!cells.empty()) bad("elements were not destroyed");
                if constexpr(std::is_same_v<T, Counted>) if(Counted::alive) bad("objects are left");
                if(in.op() == "end") { std::puts(trouble.empty() ? "bye" : trouble.c_str()); return; }
                std::puts(trouble.empty() ? "ok" : trouble.c_str());
                arenas.clear(); trouble.clear(); next = 1;
                s[1].emplace(); s[2].emplace();
                continue;
            }
            step(in);
            std::string line = std::to_string(s[1]->size()) + " " + where(*s[1]) + " " + std::to_string(s[2]->size()) + " " + where(*s[2]) + " |";
            int owned[3]{}, live[3]{};
            for(auto& [p, id] : cells) if(id < 3) ++live[id];
            if(Hooks) for(int k = 0; k < 3; ++k) line += " " + std::to_string(live[k]);
            std::size_t blocks = 0;
            for(auto& [id, ar] : arenas) for(auto& [p, n] : ar.blocks) blocks += n > 0;
            if(blocks > 2) bad("two arrays hold more than two blocks");
            (void)owned;
            std::puts((line + (trouble.empty() ? "" : " " + trouble)).c_str());
        }
    }
};

int main(int, char** v) {
    std::string t = v[1];
    if(t == "int") Run<int, true>().run();
    else if(t == "plain") Run<int, false>().run();
    else if(t == "counted") Run<Counted, true>().run();
    else if(t == "own") Run<Counted, false>().run();
    else return 3;
}
