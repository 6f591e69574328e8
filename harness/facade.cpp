// Containers of all kinds that take their interface from IContainer (spec/Facade).
//   ask <category> <end> <iterable> <refs> <own size> <constant> <op> <k> <length>
#include "track.hpp"
#include <array>
#include <cstddef>
#include <iterator>
#include <utility>
#include <xme/container/icontainer.hpp>
struct Answer { bool offered = false; long value = 0, at = 0; bool writable = false; std::array<int, 8> after{}; friend constexpr bool operator==(const Answer&, const Answer&) = default; };
// what iterators are made of, by what they can do
template<int Cat, bool Const, bool Values> struct It {
    using cell = std::conditional_t<Const, const int, int>;
    using value_type = int; using difference_type = std::ptrdiff_t;
    using reference = std::conditional_t<Values, int, cell&>; using pointer = std::conditional_t<Values, void, cell*>;
    using iterator_category = std::conditional_t<Cat == 0, std::input_iterator_tag, std::conditional_t<Cat == 1, std::forward_iterator_tag, std::conditional_t<Cat == 2, std::bidirectional_iterator_tag, std::random_access_iterator_tag>>>;
    using iterator_concept = std::conditional_t<Cat == 4, ::ranges::contiguous_iterator_tag, iterator_category>;
    cell* p = nullptr;
    constexpr reference operator*() const { return *p; }
    constexpr cell* operator->() const requires(!Values) { return p; }
    constexpr It& operator++() { ++p; return *this; }
    constexpr It operator++(int) { It t = *this; ++p; return t; }
    constexpr bool operator==(const It&) const requires(Cat >= 1) = default;
    constexpr It& operator--() requires(Cat >= 2) { --p; return *this; }
    constexpr It operator--(int) requires(Cat >= 2) { It t = *this; --p; return t; }
    constexpr auto operator<=>(const It&) const requires(Cat >= 3) = default;
    constexpr It& operator+=(std::ptrdiff_t n) requires(Cat >= 3) { p += n; return *this; }
    constexpr It& operator-=(std::ptrdiff_t n) requires(Cat >= 3) { p -= n; return *this; }
    constexpr reference operator[](std::ptrdiff_t n) const requires(Cat >= 3) { return p[n]; }
    friend constexpr It operator+(It i, std::ptrdiff_t n) requires(Cat >= 3) { return i += n; }
    friend constexpr It operator+(std::ptrdiff_t n, It i) requires(Cat >= 3) { return i += n; }
    friend constexpr It operator-(It i, std::ptrdiff_t n) requires(Cat >= 3) { return i -= n; }
    friend constexpr std::ptrdiff_t operator-(const It& a, const It& b) requires(Cat >= 3) { return a.p - b.p; }
};
template<bool Sized> struct End {
    const int* p = nullptr;
    template<int C, bool K, bool V> friend constexpr bool operator==(const It<C, K, V>& i, const End& e) { return i.p == e.p; }
    template<int C, bool K, bool V> friend constexpr std::ptrdiff_t operator-(const It<C, K, V>& i, const End& e) requires Sized { return i.p - e.p; }
    template<int C, bool K, bool V> friend constexpr std::ptrdiff_t operator-(const End& e, const It<C, K, V>& i) requires Sized { return e.p - i.p; }
};
template<int Cat, int E, int Thru, bool Values, bool Own> struct Box;
template<int Cat, int E, int Thru, bool Values, bool Own> struct Cells : xme::IContainer<Box<Cat, E, Thru, Values, Own>> {
    std::array<int, 8> cells{}; int n = 0;
    template<bool K> constexpr auto finish() const {
        if constexpr(E == 0) return It<Cat, K, Values>{const_cast<int*>(cells.data()) + n}; else return End<E == 2>{cells.data() + n};
    }
};
template<int Cat, int E, int Thru, bool Values, bool Own> struct Base : Cells<Cat, E, Thru, Values, Own> {
    using super = Cells<Cat, E, Thru, Values, Own>;
    constexpr auto begin() requires(Thru != 2) { return It<Cat, false, Values>{this->cells.data()}; }
    constexpr auto begin() const requires(Thru != 1) { return It<Cat, true, Values>{this->cells.data()}; }
    constexpr auto end() requires(Thru != 2) { return this->template finish<false>(); }
    constexpr auto end() const requires(Thru != 1) { return this->template finish<true>(); }
};
template<int Cat, int E, int Thru, bool Values> struct Box<Cat, E, Thru, Values, false> : Base<Cat, E, Thru, Values, false> {};
template<int Cat, int E, int Thru, bool Values> struct Box<Cat, E, Thru, Values, true> : Base<Cat, E, Thru, Values, true> { constexpr auto size() const -> std::size_t { return this->n; } };

template<typename B> constexpr Answer ask(B& box, int op, int k) {
    Answer a;
    const int* const first = box.cells.data();
    auto one = [&]<typename R>(std::type_identity<R>, auto get) {
        a.offered = true;
        if constexpr(std::is_lvalue_reference_v<R>) {
            R r = get();
            a.value = r; a.at = &r - first;
            if constexpr(!std::is_const_v<std::remove_reference_t<R>>) { a.writable = true; r = 7; }
        }
        else { a.value = get(); a.at = -1; }
    };
#define ONE(EXPR) if constexpr(requires { EXPR; }) one(std::type_identity<decltype(EXPR)>(), [&]() -> decltype(auto) { return EXPR; });
    switch(op) {
        case 0: ONE(box.empty()) break;
        case 1: ONE(box.size()) break;
        case 2: if constexpr(requires { box.data(); }) {
                a.offered = true; auto p = box.data(); a.at = p - first;
                if constexpr(!std::is_const_v<std::remove_pointer_t<decltype(p)>>) { a.writable = true; if(box.n) *p = 7; }
            } break;
        case 3: ONE(box.front()) break;
        case 4: ONE(box.back()) break;
        case 5: ONE(box[k]) break;
    }
    a.after = box.cells;
    return a;
}
template<typename B> constexpr Answer run(bool constant, int op, int k, int n) {
    B box; box.n = n;
    for(int i = 0; i < 8; ++i) box.cells[i] = i < n ? (i + 1) * (i + 1) : 99;
    if(!constant) return ask(box, op, k);
    return ask<const B>(box, op, k);
}
// the same with two elements as constants
template<typename B> inline constexpr auto constants = [] { std::array<Answer, 12> t; for(int i = 0; i < 12; ++i) t[i] = run<B>(i / 6, i % 6, 0, 2); return t; }();
static const char* const ops[] = {"empty", "size", "data", "front", "back", "index"};
int main() {
    for(vp::Script in; in.next();) {
        if(in.op() == "end") break;
        if(in.op() == "reset") { std::puts("ok"); continue; }
        int op = 0;
        while(in.tok[7] != ops[op]) ++op;
        const int n = in.num(9);
        Answer a; bool known = false, same = true;
        auto kind = [&]<int C, int E, int T, int V, int O>() {
            if constexpr((V && C == 4) || (C == 0 && E == 0)) return;
            else if(in.num(1) == C && in.num(2) == E && in.num(3) == T && in.num(4) == V && in.num(5) == O) {
                using B = Box<C, E, T, V != 0, O != 0>;
                known = true; a = run<B>(in.num(6), op, in.num(8), n);
                if(n == 2 && in.num(8) == 0) same = constants<B>[6 * in.num(6) + op] == a;
            }
        };
        [&]<int... I>(std::integer_sequence<int, I...>) { (kind.template operator()<I / 36, I / 12 % 3, I / 4 % 3, I / 2 % 2, I % 2>(), ...); }(std::make_integer_sequence<int, 180>());
        if(!known) { std::puts("unknown"); continue; }
        std::string o = std::string(a.offered ? "offered " : "no ") + std::to_string(a.value) + " " + std::to_string(a.at) + (a.writable ? " w |" : " r |");
        for(int i = 0; i < n; ++i) o += " " + std::to_string(a.after[i]);
        for(int i = n; i < 8; ++i) if(a.after[i] != 99) o += " beyond";
        if(!same) o += " but another as a constant";
        std::puts(o.c_str());
    }
    std::puts("bye");
}
