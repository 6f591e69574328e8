// Drives xme::Heap through its public interface.  Elements are "key:id" with distinct ids.
#include "track.hpp"
#include <forward_list>
#include <list>
#include <vector>
#include <ranges>
#include <xme/container/heap.hpp>
using namespace vp;

struct Item {
    int key, id;
    friend bool operator<(const Item& a, const Item& b) { return a.key < b.key; }
    friend bool operator>(const Item& a, const Item& b) { return a.key > b.key; }
};
struct Owner {   // move-only, owns memory
    std::unique_ptr<Item> p;
    Owner(int k, int i) : p(new Item{k, i}) {}
    Owner(Item i) : Owner(i.key, i.id) {}
    Owner(Owner&&) = default;
    Owner& operator=(Owner&&) = default;
    friend bool operator<(const Owner& a, const Owner& b) { return a.p->key < b.p->key; }
};
struct Mod { bool operator()(const Item& a, const Item& b) const { return (a.key % 3) < (b.key % 3); } };
struct Desc { bool operator()(const Owner& a, const Owner& b) const { return a.p->key > b.p->key; } };
struct Text { std::string key; int id; Text(int k, int i) : key(std::string(30, char('a' + k % 26)) + "z"), id(i) {} Text(Item i) : Text(i.key, i.id) {} };
struct ByText { bool operator()(const Text& a, const Text& b) const { return a.key < b.key; } };

template<typename T> struct Make;
template<> struct Make<Item> { static Item make(int k, int i) { return {k, i}; } static int key(const Item& x) { return x.key; } static int id(const Item& x) { return x.id; } };
template<> struct Make<Owner> { static Owner make(int k, int i) { return Owner(k, i); } static int key(const Owner& x) { return x.p ? x.p->key : -99; } static int id(const Owner& x) { return x.p ? x.p->id : -99; } };
template<> struct Make<Text> { static Text make(int k, int i) { return Text(k, i); } static int key(const Text& x) { return x.key[0] - 'a'; } static int id(const Text& x) { return x.id; } };

template<typename T, typename Cont, typename Cmp>
struct Driver {
    using H = xme::Heap<T, Cont, Cmp>;
    using M = Make<T>;
    static constexpr bool C = std::is_copy_constructible_v<T>;
    int (*rank)(int);
    std::unique_ptr<H> a{new H}, b{new H};
    std::string el(const T& x) { return "[" + std::to_string(rank(M::key(x))) + "," + std::to_string(M::id(x)) + "]"; }
    std::string layout(H& h, bool& bad) {
        const H& c = h;
        std::string s = "[";
        std::size_t n = 0;
        for(auto it = c.begin(); it != c.end(); ++it, ++n) {
            s += (n ? "," : "") + el(*it);
            if(&*it != &c[n]) bad = true;
        }
        if(c.size() != n || h.size() != n || c.empty() != (n == 0) || h.empty() != (n == 0)) bad = true;
        if(n && &c.front() != &c[0]) bad = true;
        return s + "]";
    }
    void run() {
        Script s;
        while(s.next()) {
            auto& op = s.op();
            if(op == "end") { log().line("[\"quit\"]"); log().close(); std::puts("bye"); return; }
            if(op == "reset") { a.reset(new H); b.reset(new H); log().line("[\"reset\"]"); std::puts("ok"); continue; }
            std::vector<T> vs;
            std::string args;
            for(std::size_t i = 1; i < s.tok.size(); ++i) {
                int k, id;
                std::sscanf(s.tok[i].c_str(), "%d:%d", &k, &id);
                vs.push_back(M::make(k, id));
                args += (i > 1 ? "," : "") + el(vs.back());
            }
            log().line("[\"call\",\"" + op + "\",[" + args + "]]");
            if(op == "def") a.reset(new H);
            else if(op == "push") a->push(std::move(vs[0]));
            else if(op == "emplace") { Item i{M::key(vs[0]), M::id(vs[0])}; if constexpr(std::is_same_v<T, Text> || std::is_same_v<T, Owner>) a->emplace(i.key, i.id); else a->emplace(i); }
            else if(op == "pop") a->pop();
            else if(op == "movector") b.reset(new H(std::move(*a)));
            else if(op == "massign") *a = std::move(*b);
            else if(op == "swap") std::swap(*a, *b);
            else if(op == "iter") { if constexpr(C) a.reset(new H(vs.begin(), vs.end())); else a.reset(new H(std::make_move_iterator(vs.begin()), std::make_move_iterator(vs.end()))); }
            else if(op == "input") { using In = InputIt<T, !C>; typename In::Src src{&vs}; a.reset(new H(In{&src}, typename In::Sent{})); }
            else if constexpr(C) {
                if(op == "pushl") a->push(std::as_const(vs[0]));
                else if(op == "list") { std::list<T> l(vs.begin(), vs.end()); a.reset(new H(l.begin(), l.end())); }
                else if(op == "range") a.reset(new H(vs));
                else if(op == "urange") { std::forward_list<T> l(vs.begin(), vs.end()); a.reset(new H(l)); }
                else if(op == "copyctor") b.reset(new H(std::as_const(*a)));
                else if(op == "assign") *a = std::as_const(*b);
                else return std::exit(3);
            }
            else return std::exit(3);
            bool bad = false;
            auto la = layout(*a, bad), lb = layout(*b, bad);
            log().line("[\"ret\"," + la + "," + lb + "," + (a->begin() == a->end() ? "[]" : el(a->front())) + "]");
            std::printf("%s%s %s\n", bad ? "INCONSISTENT " : "", la.c_str(), lb.c_str());
        }
    }
};

int main(int argc, char** argv) {
    std::string t = argc > 1 ? argv[1] : "less";
    if(argc > 2) log().open(argv[2]);
    auto up = +[](int k) { return k; };
    auto down = +[](int k) { return -k; };
    if(t == "less") Driver<Item, xme::Array<Item>, std::less<>>{up}.run();
    else if(t == "greater") Driver<Item, xme::Array<Item>, std::greater<>>{down}.run();
    else if(t == "mod") Driver<Item, xme::Array<Item>, Mod>{+[](int k) { return k % 3; }}.run();
    else if(t == "vector") Driver<Item, std::vector<Item>, std::less<>>{up}.run();
    else if(t == "owner") Driver<Owner, xme::Array<Owner>, std::less<>>{up}.run();
    else if(t == "ownerdesc") Driver<Owner, xme::Array<Owner>, Desc>{down}.run();
    else if(t == "text") Driver<Text, xme::Array<Text>, ByText>{up}.run();
    else return 3;
}
