// Drives xme::Array through its public interface, one script line per operation.
#include "track.hpp"
#include <forward_list>
#include <list>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
using namespace vp;

struct Armed {   // the span in which the library runs: faults are armed here
    static inline long pending = 0;
    static inline std::string call;
    Armed() { log().line(call); log().countdown = pending; log().actions = 0; log().fired = 0; }
    ~Armed() { log().countdown = 0; }
};

template<typename T, typename Al>
struct Driver {
    using Arr = xme::Array<T, Al>;
    using E = Elem<T>;
    static constexpr bool C = E::copyable;
    std::unique_ptr<Arr> a, b;

    Driver() { fresh(); }
    void fresh() { a.reset(); b.reset(); a = std::make_unique<Arr>(); b = std::make_unique<Arr>(); }

    static std::string contents(Arr& x, bool& bad) {
        const Arr& cx = x;
        std::vector<int> r;
        for(auto&& e : cx) r.push_back(E::read(e));
        std::size_t n = r.size();
        if(cx.size() != n || x.size() != n || cx.empty() != (n == 0) || x.empty() != (n == 0) || std::size_t(x.end() - x.begin()) != n) bad = true;
        if(x.capacity() < n) bad = true;
        for(std::size_t i = 0; i < n; ++i)
            if(E::read(x[i]) != r[i] || E::read(cx[i]) != r[i] || E::read(x.data()[i]) != r[i] || cx.data() + i != &cx[i] || &*(x.begin() + i) != &x[i]) bad = true;
        if(n && (&x.front() != &x[0] || &x.back() != &x[n - 1] || &cx.front() != &cx[0] || &cx.back() != &cx[n - 1])) bad = true;
        std::string s;
        for(auto v : r) s += (s.empty() ? "" : ",") + std::to_string(v);
        return s;
    }

    // returns the position an operation reports, -1 if it reports none
    long step(const Script& s) {
        const auto& op = s.op();
        std::vector<T> vs;
        auto fill = [&](std::size_t from) {
            auto r = s.rest(from);
            vs.reserve(r.size());
            for(int v : r) vs.push_back(E::make(v));
        };
        auto pos = [&](auto it) -> long { return it - a->begin(); };
        auto at = [&](std::size_t i) { return typename Arr::const_iterator(a->begin() + s.num(i)); };
        using In = InputIt<T, !C>;
        typename In::Src src{&vs};
        typename In::Sent sent;
        if(op == "def") { Armed g; a = std::make_unique<Arr>(); return -1; }
        if(op == "defal") { Armed g; Al al; a = std::make_unique<Arr>(al); return -1; }
        if(op == "cap") { Armed g; a = std::make_unique<Arr>(std::size_t(s.num(1))); return -1; }
        if(op == "input") { fill(1); Armed g; a = std::make_unique<Arr>(In{&src}, sent); return -1; }
        if(op == "movector") { Armed g; b = std::make_unique<Arr>(std::move(*a)); return -1; }
        if(op == "massign") { Armed g; *a = std::move(*b); return -1; }
        if(op == "swap") { Armed g; a->swap(*b); return -1; }
        if(op == "swapself") { Armed g; a->swap(*a); return -1; }
        if(op == "push") { fill(1); Armed g; a->push_back(std::move(vs[0])); return -1; }
        if(op == "emplace") { fill(1); Armed g; auto& r = a->emplace_back(std::move(vs[0])); return &r - a->data(); }
        if(op == "pushin") { fill(1); Armed g; a->push_back(In{&src}, sent); return -1; }
        if(op == "ins") { fill(2); Armed g; return pos(a->insert(at(1), std::move(vs[0]))); }
        if(op == "insin") { fill(2); Armed g; return pos(a->insert(at(1), In{&src}, sent)); }
        if(op == "pop") { Armed g; a->pop_back(); return -1; }
        if(op == "erase") { Armed g; return pos(a->erase(at(1))); }
        if(op == "eraser") { Armed g; return pos(a->erase(at(1), at(2))); }
        if(op == "clear") { Armed g; a->clear(); return -1; }
        if(op == "reserve") { Armed g; a->reserve(s.num(1)); return -1; }
        if(op == "resize") { Armed g; a->resize(s.num(1)); return -1; }
        if(op == "set") { fill(2); Armed g; (*a)[s.num(1)] = std::move(vs[0]); return -1; }
        if constexpr(C) {
            if(op == "fill") { T v = E::make(s.num(2)); Armed g; a = std::make_unique<Arr>(std::size_t(s.num(1)), v); return -1; }
            if(op == "il") {
                fill(1); Armed g;
                if(vs.size() == 0) a = std::make_unique<Arr>(std::initializer_list<T>{});
                else if(vs.size() == 1) a = std::make_unique<Arr>(std::initializer_list<T>{vs[0]});
                else a = std::make_unique<Arr>(std::initializer_list<T>{vs[0], vs[1]});
                return -1;
            }
            if(op == "iter") { fill(1); std::list<T> l(vs.begin(), vs.end()); Armed g; a = std::make_unique<Arr>(l.begin(), l.end()); return -1; }
            if(op == "range") { fill(1); Armed g; a = std::make_unique<Arr>(vs); return -1; }
            if(op == "ranget") { fill(1); xme::Array<T, std::allocator<T>> src2(vs.begin(), vs.end()); Armed g; a = std::make_unique<Arr>(src2); return -1; }
            if(op == "copyctor") { Armed g; b = std::make_unique<Arr>(std::as_const(*a)); return -1; }
            if(op == "assign") { Armed g; *a = std::as_const(*b); return -1; }
            if(op == "assignself") { Armed g; *a = std::as_const(*a); return -1; }
            if(op == "ilassign") {
                fill(1); Armed g;
                if(vs.size() == 0) *a = std::initializer_list<T>{};
                else if(vs.size() == 1) *a = std::initializer_list<T>{vs[0]};
                else *a = std::initializer_list<T>{vs[0], vs[1]};
                return -1;
            }
            if(op == "pushl") { fill(1); Armed g; a->push_back(std::as_const(vs[0])); return -1; }
            if(op == "pushself") { Armed g; a->push_back((*a)[s.num(1)]); return -1; }
            if(op == "emplself") { Armed g; auto& r = a->emplace_back(std::as_const((*a)[s.num(1)])); return &r - a->data(); }
            if(op == "pushr") { fill(1); Armed g; a->push_back(vs.begin(), vs.end()); return -1; }
            if(op == "pushrange") { fill(1); std::forward_list<T> l(vs.begin(), vs.end()); Armed g; a->push_back(l); return -1; }
            if(op == "pushb") { Armed g; a->push_back(*b); return -1; }
            if(op == "insl") { fill(2); Armed g; return pos(a->insert(at(1), std::as_const(vs[0]))); }
            if(op == "insself") { Armed g; return pos(a->insert(at(1), (*a)[s.num(2)])); }
            if(op == "insr") { fill(2); std::forward_list<T> l(vs.begin(), vs.end()); Armed g; return pos(a->insert(at(1), l.begin(), l.end())); }
            if(op == "insb") { Armed g; return pos(a->insert(at(1), b->begin() + s.num(2), b->begin() + s.num(3))); }
            if(op == "insrange") { fill(2); Armed g; return pos(a->insert(at(1), std::as_const(vs))); }
        }
        else {
            if(op == "insr") { fill(2); Armed g; return pos(a->insert(at(1), std::make_move_iterator(vs.begin()), std::make_move_iterator(vs.end()))); }
            if(op == "pushr") { fill(1); Armed g; a->push_back(std::make_move_iterator(vs.begin()), std::make_move_iterator(vs.end())); return -1; }
            if(op == "iter") { fill(1); Armed g; a = std::make_unique<Arr>(std::make_move_iterator(vs.begin()), std::make_move_iterator(vs.end())); return -1; }
        }
        std::fprintf(stderr, "unknown operation %s\n", op.c_str());
        std::exit(3);
    }

    std::string proj(Arr& x, bool& bad) {
        return "[" + std::to_string(x.capacity() || x.data() ? block_of(x.data()) : 0) + "," + std::to_string(x.size()) + ","
               + std::to_string(x.capacity()) + ",[" + contents(x, bad) + "]]";
    }

    void run() {
        Script s;
        long k = 0;
        bool fresh_ids = true;
        while(s.next()) {
            if(s.op() == "end") { a.reset(); b.reset(); log().line("[\"quit\"]"); log().close(); std::puts("bye"); return; }
            if(s.op() == "reset") {
                a.reset(); b.reset();
                log().line("[\"reset\"]");
                log().reset_ids();
                fresh();
                std::puts("ok");
                continue;
            }
            if(s.op() == "arm") { Armed::pending = s.num(1); std::puts("ok"); continue; }
            bool exc = false, bad = false;
            long r = -1;
            std::string j = "[\"call\",\"" + s.op() + "\",[";
            for(std::size_t i = 1; i < s.tok.size(); ++i) j += (i > 1 ? "," : "") + s.tok[i];
            Armed::call = j + "]]";
            try { r = step(s); }
            catch(const Boom&) { exc = true; }
            Armed::pending = 0;
            auto ca = contents(*a, bad), cb = contents(*b, bad);
            if(log().out)
                log().line(std::string("[\"ret\",") + (exc ? "1" : "0") + "," + std::to_string(r) + "," + proj(*a, bad) + "," + proj(*b, bad) + "]");
            std::printf("%s%s%ld [%s] [%s] | %zu %zu %ld\n", bad ? "INCONSISTENT " : "", exc ? "throw " : "", r, ca.c_str(), cb.c_str(), a->capacity(), b->capacity(), log().actions);
        }
    }
};

int main(int argc, char** argv) {
    std::string t = argc > 1 ? argv[1] : "int";
    if(argc > 2) log().open(argv[2]);
    if(t == "int") Driver<int, std::allocator<int>>().run();
    else if(t == "string") Driver<std::string, std::allocator<std::string>>().run();
    else if(t == "wide") Driver<Wide, std::allocator<Wide>>().run();
    else if(t == "unique") Driver<std::unique_ptr<int>, std::allocator<std::unique_ptr<int>>>().run();
    else if(t == "copy") Driver<TCopy, LogAlloc<TCopy>>().run();
    else if(t == "throw") Driver<TThrow, LogAlloc<TThrow>>().run();
    else if(t == "move") Driver<TMove, LogAlloc<TMove>>().run();
    else return 3;
}
