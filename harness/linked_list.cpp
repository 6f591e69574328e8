// Drives xme::LinkedList through its public interface, one script line per operation.
#include "track.hpp"
#include <forward_list>
#include <list>
#include <utility>
#include <xme/container/linked_list.hpp>
using namespace vp;

struct Armed {
    static inline long pending = 0;
    static inline std::string call;
    Armed() { log().line(call); log().countdown = pending; log().actions = 0; log().fired = 0; }
    ~Armed() { log().countdown = 0; }
};
namespace vp {
template<typename T> struct Default { static constexpr int value = 0; };
}

template<typename T, typename Al>
struct Driver {
    using List = xme::LinkedList<T, Al>;
    using E = Elem<T>;
    using It = typename List::iterator;
    using CIt = typename List::const_iterator;
    static constexpr bool C = E::copyable;
    std::unique_ptr<List> a, b;
    std::vector<std::pair<It, const T*>> oa, ob;      // iterators and addresses before the operation

    Driver() { fresh(); }
    void fresh() { a.reset(); b.reset(); a = std::make_unique<List>(); b = std::make_unique<List>(); }
    static auto snapshot(List& l) { std::vector<std::pair<It, const T*>> r; for(auto it = l.begin(); it != l.end(); ++it) r.push_back({it, &*it}); return r; }

    // value@origin for every element; origin a3: the node that was element 3 of a before the operation
    std::string contents(List& l, bool& bad) {
        const List& cl = l;
        std::string s;
        auto now = snapshot(l);
        if(l.empty() != now.empty() || cl.empty() != now.empty()) bad = true;
        if(!now.empty() && (&l.front() != now[0].second || &cl.front() != now[0].second)) bad = true;
        std::size_t i = 0;
        for(auto it = cl.begin(); it != cl.end(); it++, ++i) {
            if(i >= now.size() || &*it != now[i].second || it.operator->() != now[i].second) { bad = true; break; }
            if(!(CIt(now[i].first) == it)) bad = true;
        }
        if(i != now.size()) bad = true;
        auto bb = l.before_begin(); ++bb; if(!(bb == l.begin())) bad = true;
        auto cb = cl.cbefore_begin(); ++cb; if(!(cb == cl.begin())) bad = true;
        for(i = 0; i < now.size(); ++i) {
            std::string o = "n";
            auto look = [&](auto& old, const char* w) {
                for(std::size_t j = 0; j < old.size(); ++j)
                    if(old[j].second == now[i].second) {
                        o = w + std::to_string(j);
                        It saved = old[j].first;                    // the old iterator still works
                        if(&*saved != now[i].second || !(saved == now[i].first)) bad = true;
                        ++saved;
                        if(i + 1 < now.size() ? &*saved != now[i + 1].second : !(saved == l.end())) bad = true;
                    }
            };
            look(oa, "a"); look(ob, "b");
            s += (i ? "," : "") + std::to_string(E::read(*now[i].first)) + "@" + o;
        }
        return s;
    }
    std::string proj(List& l) {
        std::string s = "[";
        for(auto it = l.begin(); it != l.end(); ++it) {
            auto w = log().where(&*it, false);
            s += (s.size() > 1 ? "," : "") + std::string("[") + w.substr(0, w.find(',')) + "," + std::to_string(E::read(*it)) + "]";
        }
        return s + "]";
    }

    long step(const Script& s) {
        const auto& op = s.op();
        std::vector<T> vs;
        auto fill = [&](std::size_t from) { auto r = s.rest(from); vs.reserve(r.size()); for(int v : r) vs.push_back(E::make(v)); };
        auto at = [&](std::size_t i) -> CIt { auto it = a->before_begin(); for(long k = s.num(i); k > -1; --k) ++it; return it; };
        auto pos = [&](It r) -> long { long k = -1; for(auto it = a->before_begin();; ++it, ++k) { if(it == r) return k; if(k >= 0 && it == a->end()) return -9; } };
        using In = InputIt<T, !C>;
        typename In::Src src{&vs};
        typename In::Sent sent;
        if(op == "def") { Armed g; a = std::make_unique<List>(); return -2; }
        if constexpr(std::is_default_constructible_v<T>)
            if(op == "n") { Armed g; a = std::make_unique<List>(std::size_t(s.num(1))); return -2; }
        if(op == "input") { fill(1); Armed g; a = std::make_unique<List>(In{&src}, sent); return -2; }
        if(op == "movector") { Armed g; b = std::make_unique<List>(std::move(*a)); return -2; }
        if(op == "massign") { Armed g; *a = std::move(*b); return -2; }
        if(op == "pushf") { fill(1); Armed g; a->push_front(std::move(vs[0])); return -2; }
        if(op == "emplf") { fill(1); Armed g; auto& r = a->emplace_front(std::move(vs[0])); return &r == &*a->begin() ? 0 : -9; }
        if(op == "popf") { Armed g; a->pop_front(); return -2; }
        if(op == "insa") { fill(2); auto p = at(1); Armed g; auto r = a->insert_after(p, std::move(vs[0])); log().countdown = 0; return pos(r); }
        if(op == "empla") { fill(2); auto p = at(1); Armed g; auto r = a->emplace_after(p, std::move(vs[0])); log().countdown = 0; return pos(r); }
        if(op == "insain") { fill(2); auto p = at(1); Armed g; auto r = a->insert_after(p, In{&src}, sent); log().countdown = 0; return pos(r); }
        if(op == "assignin") { fill(1); Armed g; a->assign(In{&src}, sent); return -2; }
        if(op == "erasea") { auto p = at(1); Armed g; a->erase_after(p); return -2; }
        if(op == "erasear") { auto p = at(1); auto q = at(2); Armed g; a->erase_after(p, q); return -2; }
        if(op == "reverse") { Armed g; a->reverse(); return -2; }
        if(op == "clear") { Armed g; a->clear(); return -2; }
        if constexpr(C) {
            auto il = [&](auto f) {
                if(vs.size() == 0) f(std::initializer_list<T>{});
                else if(vs.size() == 1) f(std::initializer_list<T>{vs[0]});
                else f(std::initializer_list<T>{vs[0], vs[1]});
            };
            if(op == "nv") { T v = E::make(s.num(2)); Armed g; a = std::make_unique<List>(std::size_t(s.num(1)), v); return -2; }
            if(op == "iter") { fill(1); std::forward_list<T> l(vs.begin(), vs.end()); Armed g; a = std::make_unique<List>(l.begin(), l.end()); return -2; }
            if(op == "range") { fill(1); Armed g; a = std::make_unique<List>(vs); return -2; }
            if(op == "il") { fill(1); Armed g; il([&](std::initializer_list<T> l) { a = std::make_unique<List>(l); }); return -2; }
            if(op == "ilassign") { fill(1); Armed g; il([&](std::initializer_list<T> l) { *a = l; }); return -2; }
            if(op == "assignil") { fill(1); Armed g; il([&](std::initializer_list<T> l) { a->assign(l); }); return -2; }
            if(op == "copyctor") { Armed g; b = std::make_unique<List>(std::as_const(*a)); return -2; }
            if(op == "assign") { Armed g; *a = std::as_const(*b); return -2; }
            if(op == "assignb") { Armed g; a->assign(b->begin(), b->end()); return -2; }
            if(op == "assignself") { Armed g; *a = std::as_const(*a); return -2; }
            if(op == "assignr") { fill(1); Armed g; a->assign(vs); return -2; }
            if(op == "assigni") { fill(1); std::list<T> l(vs.begin(), vs.end()); Armed g; a->assign(l.begin(), l.end()); return -2; }
            if(op == "pushfl") { fill(1); Armed g; a->push_front(std::as_const(vs[0])); return -2; }
            if(op == "pushself") { auto p = at(1); Armed g; a->push_front(*p); return -2; }
            if(op == "insal") { fill(2); auto p = at(1); Armed g; auto r = a->insert_after(p, std::as_const(vs[0])); log().countdown = 0; return pos(r); }
            if(op == "insself") { auto p = at(1); auto q = at(2); Armed g; auto r = a->insert_after(p, *q); log().countdown = 0; return pos(r); }
            if(op == "insar") { fill(2); std::list<T> l(vs.begin(), vs.end()); auto p = at(1); Armed g; auto r = a->insert_after(p, l.begin(), l.end()); log().countdown = 0; return pos(r); }
            if(op == "insarr") { fill(2); auto p = at(1); Armed g; auto r = a->insert_after(p, vs); log().countdown = 0; return pos(r); }
            if(op == "insab") { auto p = at(1); Armed g; auto r = a->insert_after(p, *b); log().countdown = 0; return pos(r); }
        }
        else {
            auto mb = [&] { return std::make_move_iterator(vs.begin()); };
            auto me = [&] { return std::make_move_iterator(vs.end()); };
            if(op == "iter") { fill(1); Armed g; a = std::make_unique<List>(mb(), me()); return -2; }
            if(op == "assigni") { fill(1); Armed g; a->assign(mb(), me()); return -2; }
            if(op == "insar") { fill(2); auto p = at(1); Armed g; auto r = a->insert_after(p, mb(), me()); log().countdown = 0; return pos(r); }
        }
        std::fprintf(stderr, "unknown operation %s\n", op.c_str());
        std::exit(3);
    }

    void run() {
        Script s;
        while(s.next()) {
            if(s.op() == "end") { a.reset(); b.reset(); log().line("[\"quit\"]"); log().close(); std::puts("bye"); return; }
            if(s.op() == "reset") { a.reset(); b.reset(); log().line("[\"reset\"]"); log().reset_ids(); fresh(); std::puts("ok"); continue; }
            if(s.op() == "arm") { Armed::pending = s.num(1); std::puts("ok"); continue; }
            bool exc = false, bad = false;
            long r = -2;
            std::string j = "[\"call\",\"" + s.op() + "\",[";
            for(std::size_t i = 1; i < s.tok.size(); ++i) j += (i > 1 ? "," : "") + s.tok[i];
            Armed::call = j + "]]";
            oa = snapshot(*a); ob = snapshot(*b);
            try { r = step(s); }
            catch(const Boom&) { exc = true; }
            Armed::pending = 0;
            if(s.op() == "massign") ob.swap(oa), ob.swap(oa);
            auto ca = contents(*a, bad), cb = contents(*b, bad);
            if(log().out) log().line(std::string("[\"ret\",") + (exc ? "1" : "0") + "," + std::to_string(r) + "," + proj(*a) + "," + proj(*b) + "]");
            std::printf("%s%s%ld [%s] [%s] %ld\n", bad ? "INCONSISTENT " : "", exc ? "throw " : "", r, ca.c_str(), cb.c_str(), log().actions);
        }
    }
};

int main(int argc, char** argv) {
    std::string t = argc > 1 ? argv[1] : "int";
    if(argc > 2) log().open(argv[2]);
    if(t == "int") Driver<int, std::allocator<int>>().run();
    else if(t == "string") Driver<std::string, std::allocator<std::string>>().run();
    else if(t == "unique") Driver<std::unique_ptr<int>, std::allocator<std::unique_ptr<int>>>().run();
    else if(t == "wide") Driver<Wide, std::allocator<Wide>>().run();
    else if(t == "copy") Driver<TCopy, LogAlloc<TCopy>>().run();
    else if(t == "throw") Driver<TThrow, LogAlloc<TThrow>>().run();
    else if(t == "move") Driver<TMove, LogAlloc<TMove>>().run();
    else return 3;
}
