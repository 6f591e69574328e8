// Containers, views and adaptors under the algorithms of std, std::ranges and range-v3 (spec/Interop).
//   case <need> <writes> <op> <x> <k> <elements>...   answers with what all of them agree on
#include "track.hpp"
#include <algorithm>
#include <array>
#include <deque>
#include <list>
#include <numeric>
#include <ranges>
#include <range/v3/all.hpp>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>
using namespace std::string_literals;
static_assert(sizeof(int) == 4);
// an element that is not a number
struct Word {
    std::string t;
    Word() = default;
    Word(int v) : t("a word that is long enough to be stored elsewhere: ") { t += char('A' + v); }
    friend bool operator==(const Word&, const Word&) = default;
    friend auto operator<=>(const Word&, const Word&) = default;
};
static int num(int v) { return v; }
static int num(const Word& w) { return w.t.back() - 'A'; }
static std::string op; static int X, K, need; static bool writes;
static const char* const skip = "?";
template<typename V> static std::string text(long ans, V&& v) {
    std::string o = std::to_string(ans) + " |";
    for(auto&& e : v) o += " " + std::to_string(num(e));
    return o;
}
template<int L, typename R> static std::string classic(R& r);
// L: 0 std, 1 std::ranges, 2 range-v3
#define ALG(CALL0, CALLR) [&]() -> decltype(auto) { if constexpr(L == 0) { return CALL0; } else if constexpr(L == 1) { namespace rg = std::ranges; return CALLR; } else { namespace rg = ::ranges; return CALLR; } }()
#define IS(NAME) if(op == NAME)
template<int L, typename R> static std::string run(R& r) {
    using T = std::ranges::range_value_t<R>;
    constexpr int level = std::ranges::random_access_range<R> ? 3 : std::ranges::bidirectional_range<R> ? 2 : 1;
    constexpr bool mutates = std::ranges::output_range<R, T>;
    static_assert(std::ranges::forward_range<R> && ::ranges::forward_range<R> && ::ranges::random_access_range<R> == (level == 3) && ::ranges::bidirectional_range<R> == (level >= 2));
    if(level < need || (writes && !mutates)) return skip;
    const T x(X); const auto b = r.begin(); const auto e = r.end();
    auto at = [&](auto it) { return long(std::distance(b, it)); };
    auto all = [&](long a = 0) { return text(a, r); };
    const std::vector<T> copy(b, e);
    std::vector<T> other = copy; if(!other.empty()) other.back() = T(2);
    const T pattern[2] = {x, x};
    auto plus = [](const T& v) { return T(num(v) + 10); };
    IS("count") return all(ALG(std::count(b, e, x), rg::count(r, x)));
    IS("find") return all(at(ALG(std::find(b, e, x), rg::find(r, x))));
    IS("search") return all(at([&] { if constexpr(L == 0) return std::search(b, e, pattern, pattern + 2); else if constexpr(L == 1) return std::ranges::search(r, pattern).begin(); else return ::ranges::search(r, pattern).begin(); }()));
    IS("lower") return all(at(ALG(std::lower_bound(b, e, x), rg::lower_bound(r, x))));
    IS("upper") return all(at(ALG(std::upper_bound(b, e, x), rg::upper_bound(r, x))));
    IS("binary") return all(ALG(std::binary_search(b, e, x), rg::binary_search(r, x)));
    IS("sum") { long s = 0; if constexpr(L == 0) s = std::accumulate(b, e, 0L, [](long a, const T& v) { return (3 * a + num(v)) % 10007; }); else if constexpr(L == 1) std::ranges::for_each(r, [&](const T& v) { s = (3 * s + num(v)) % 10007; }); else s = ::ranges::accumulate(r, 0L, [](long a, const T& v) { return (3 * a + num(v)) % 10007; }); return all(s); }
    IS("min") return all(at(ALG(std::min_element(b, e), rg::min_element(r))));
    IS("max") return all(at(ALG(std::max_element(b, e), rg::max_element(r))));
    IS("adjacent") return all(at(ALG(std::adjacent_find(b, e), rg::adjacent_find(r))));
    IS("sorted") return all(ALG(std::is_sorted(b, e), rg::is_sorted(r)));
    IS("distance") return all(ALG(std::distance(b, e), rg::distance(r)));
    IS("equal") return all(ALG(std::equal(b, e, other.begin(), other.end()), rg::equal(r, other)));
    IS("less") return all(ALG(std::lexicographical_compare(b, e, other.begin(), other.end()), rg::lexicographical_compare(r, other)));
    IS("mismatch") return all(at([&] { if constexpr(L == 0) return std::mismatch(b, e, other.begin(), other.end()).first; else if constexpr(L == 1) return std::ranges::mismatch(r, other).in1; else return ::ranges::mismatch(r, other).in1; }()));
    IS("all") return all(ALG(std::all_of(b, e, [](const T& v) { return num(v) > 1; }), rg::all_of(r, [](const T& v) { return num(v) > 1; })));
    IS("copy") { std::vector<T> v(copy.size()); (void) ALG(std::copy(b, e, v.begin()), rg::copy(r, v.begin())); return text(0, v); }
    IS("moveout") { std::vector<T> v(copy.size()); (void) ALG(std::move(b, e, v.begin()), rg::move(r, v.begin())); return text(mutates ? 0 : !std::ranges::equal(r, copy), v); }
    auto seven = [](const T& a, const T& c) { return T((num(a) + num(c)) % 7); };
    auto minus = [](const T& a, const T& c) { return T((num(a) - num(c) + 7) % 7); };
    IS("pairs") return all(at([&] { if constexpr(L == 0) return std::search_n(b, e, 2, x); else if constexpr(L == 1) return std::ranges::search_n(r, 2, x).begin(); else return ::ranges::search_n(r, 2, x).begin(); }()));
    IS("fewer") return all(at(ALG(std::find_if(b, e, [&](const T& v) { return v < x; }), rg::find_if(r, [&](const T& v) { return v < x; }))));
    IS("findend") return all(at([&] { if constexpr(L == 0) return std::find_end(b, e, pattern, pattern + 2); else if constexpr(L == 1) return std::ranges::find_end(r, pattern).begin(); else return ::ranges::find_end(r, pattern).begin(); }()));
    IS("inclusive") return all(ALG(std::count_if(b, e, [&](const T& v) { return v >= x; }), rg::count_if(r, [&](const T& v) { return v >= x; })));
    IS("equalrange") { auto q = [&] { if constexpr(L == 0) return std::equal_range(b, e, x); else if constexpr(L == 1) { auto s = std::ranges::equal_range(r, x); return std::pair{s.begin(), s.end()}; } else { auto s = ::ranges::equal_range(r, x); return std::pair{s.begin(), s.end()}; } }(); return all(1000 * at(q.first) + std::distance(q.first, q.second)); }
    IS("isperm") return all(ALG(std::is_permutation(b, e, other.begin(), other.end()), rg::is_permutation(r, other)));
    IS("minmax") { auto q = [&] { if constexpr(L == 0) return std::minmax_element(b, e); else if constexpr(L == 1) { auto s = std::ranges::minmax_element(r); return std::pair{s.min, s.max}; } else { auto s = ::ranges::minmax_element(r); return std::pair{s.min, s.max}; } }(); return all(1000 * at(q.first) + at(q.second)); }
    IS("products") { auto times = [](const T& a, const T& c) { return long(num(a) * num(c)); }; auto add = [](long a, long c) { return (a + c) % 10007; };
        if constexpr(L == 0) return all(std::inner_product(b, e, other.begin(), 0L, add, times)); else if constexpr(L == 1) return all(std::transform_reduce(b, e, other.begin(), 0L, add, times)); else return all(::ranges::inner_product(r, other, 0L, add, times)); }
    IS("uniquecopy") { std::vector<T> v; (void) ALG(std::unique_copy(b, e, std::back_inserter(v)), rg::unique_copy(r, std::back_inserter(v))); return text(0, v); }
    IS("partialsum") { std::vector<T> v(copy.size()); if constexpr(L == 0) std::partial_sum(b, e, v.begin(), seven); else if constexpr(L == 1) std::inclusive_scan(b, e, v.begin(), seven); else ::ranges::partial_sum(r, v.begin(), seven); return text(0, v); }
    IS("differences") { std::vector<T> v(copy.size()); if constexpr(L == 0) std::adjacent_difference(b, e, v.begin(), minus); else if constexpr(L == 1) { if(b != e) { v[0] = *b; std::ranges::transform(std::ranges::next(b), e, b, e, v.begin() + 1, minus); } } else ::ranges::adjacent_difference(r, v.begin(), minus); return text(0, v); }
    IS("rotatecopy") { std::vector<T> v; if(b != e) { auto m = std::next(b); if constexpr(L == 0) std::rotate_copy(b, m, e, std::back_inserter(v)); else if constexpr(L == 1) std::ranges::rotate_copy(r, m, std::back_inserter(v)); else ::ranges::rotate_copy(r, m, std::back_inserter(v)); } return text(0, v); }
    IS("gather") { std::vector<T> v; if constexpr(L == 2) v = r | ::ranges::to<std::vector<T>>(); else for(auto&& i : r) v.push_back(i); return text(0, v); }
    IS("backcopy") { std::vector<T> v(copy.size()); if constexpr(level >= 2) { if constexpr(L == 0) std::reverse_copy(b, e, v.begin()); else if constexpr(L == 1) std::ranges::reverse_copy(r, v.begin()); else ::ranges::reverse_copy(r, v.begin()); } return text(0, v); }
#define VIEW(NAME, SV, RV) IS(NAME) { if constexpr(L == 1) { namespace vs = std::views; return text(0, SV); } else if constexpr(L == 2) { namespace vs = ::ranges::views; return text(0, RV); } else return skip; }
#define SAME(X_) X_, X_
    if constexpr(level >= 2) {
        VIEW("reversed", r | vs::reverse | vs::transform([](const T& v) { return v; }), r | vs::reverse | vs::transform([](const T& v) { return v; }))
        IS("kept") { std::vector<T> v; auto keep = [x](const T& i) { return i == x || i == T(1); };
            if constexpr(L == 1) for(auto&& i : r | std::views::filter(keep) | std::views::reverse) v.push_back(i);
            else if constexpr(L == 2) for(auto&& i : r | ::ranges::views::filter(keep) | ::ranges::views::reverse) v.push_back(i);
            else return skip;
            return text(0, v); }
    }
    VIEW("transformed", r | vs::transform(plus), r | vs::transform(plus))
    VIEW("taken", r | vs::take(K) | vs::transform([](const T& v) { return v; }), r | vs::take(K))
    VIEW("dropped", r | vs::drop(K) | vs::transform([](const T& v) { return v; }), r | vs::drop(K) | vs::transform([](const T& v) { return v; }))
    IS("slice") { const int n = std::max<int>(0, int(copy.size()) - 1 - K); std::vector<T> v;
        if constexpr(L == 1) for(auto&& i : r | std::views::drop(K) | std::views::take(n)) v.push_back(i);
        else if constexpr(L == 2) for(auto&& i : r | ::ranges::views::drop(K) | ::ranges::views::take(n)) v.push_back(i);
        else return skip;
        return text(0, v); }
    IS("filtered") { std::vector<T> v; auto keep = [x](const T& i) { return i != x; };
        if constexpr(L == 1) for(auto&& i : r | std::views::filter(keep)) v.push_back(i);
        else if constexpr(L == 2) for(auto&& i : r | ::ranges::views::filter(keep)) v.push_back(i);
        else std::copy_if(b, e, std::back_inserter(v), keep);
        return text(0, v); }
    IS("strided") { std::vector<T> v; if constexpr(L == 2) { for(auto&& i : r | ::ranges::views::stride(K + 1)) v.push_back(i); } else { auto i = b; while(i != e) { v.push_back(*i); if constexpr(L == 1) std::ranges::advance(i, K + 1, e); else for(int j = 0; j <= K && i != e; ++j) ++i; } } return text(0, v); }
    IS("twice") { std::vector<T> v; if constexpr(L == 2) { for(auto&& i : ::ranges::views::concat(r, copy)) v.push_back(i); } else { for(auto i = b; i != e; ++i) v.push_back(*i); for(auto i = b; i != e; i++) v.push_back(*i); } return text(0, v); }
    if constexpr(level == 3) IS("index") { long a; if constexpr(L == 0) a = num(b[K]); else if constexpr(L == 1) a = num(*std::ranges::next(b, K)); else a = num(::ranges::at(r, K)); return all(a); }
    if constexpr(mutates) {
        IS("fill") { (void) ALG(std::fill(b, e, x), rg::fill(r, x)); return all(); }
        IS("replace") { (void) ALG(std::replace(b, e, x, T(9)), rg::replace(r, x, T(9))); return all(); }
        IS("iota") { if constexpr(L == 0) { int n = 0; std::generate(b, e, [&] { return T(++n); }); } else if constexpr(L == 1) { int n = 0; std::ranges::generate(r, [&] { return T(++n); }); } else { int n = 0; ::ranges::generate(r, [&] { return T(++n); }); } return all(); }
        IS("bump") { if constexpr(L == 0) std::transform(b, e, b, plus); else if constexpr(L == 1) std::ranges::transform(r, b, plus); else ::ranges::transform(r, b, plus); return all(); }
        IS("swapends") { auto i = std::next(b, copy.size() - 1); if constexpr(L == 0) std::iter_swap(b, i); else if constexpr(L == 1) std::ranges::iter_swap(b, i); else ::ranges::iter_swap(b, i); return all(); }
        IS("rotate") { auto m = std::next(b, K); if constexpr(L == 0) std::rotate(b, m, e); else if constexpr(L == 1) std::ranges::rotate(r, m); else ::ranges::rotate(r, m); return all(); }
        IS("filltail") { auto m = std::next(b, K); if constexpr(L == 0) std::fill_n(m, copy.size() - K, T(7)); else if constexpr(L == 1) std::ranges::fill_n(m, copy.size() - K, T(7)); else ::ranges::fill_n(m, copy.size() - K, T(7)); return all(); }
        auto upto = [&](auto it) { return text(at(it), std::ranges::subrange(b, it)); };
        IS("remove") { if constexpr(L == 0) return upto(std::remove(b, e, x)); else if constexpr(L == 1) return upto(std::ranges::remove(r, x).begin()); else return upto(::ranges::remove(r, x)); }
        IS("unique") { if constexpr(L == 0) return upto(std::unique(b, e)); else if constexpr(L == 1) return upto(std::ranges::unique(r).begin()); else return upto(::ranges::unique(r)); }
        IS("partitioned") { auto f = [&](const T& v) { return v < x; };
            if constexpr(L == 0) std::stable_partition(b, e, f); else if constexpr(L == 1) { if constexpr(level >= 2) std::ranges::stable_partition(r, f); else return skip; } else { if constexpr(level >= 2) ::ranges::stable_partition(r, f); else return skip; }
            return all(); }
        if constexpr(level >= 2) {
            IS("merge") { auto m = std::next(b, copy.size() / 2); if constexpr(L == 0) std::inplace_merge(b, m, e); else if constexpr(L == 1) std::ranges::inplace_merge(r, m); else ::ranges::inplace_merge(r, m); return all(); }
            IS("reverse") { (void) ALG(std::reverse(b, e), rg::reverse(r)); return all(); }
            IS("shift") { auto i = std::next(b, copy.size() - 1); if constexpr(L == 0) std::move_backward(b, i, e); else if constexpr(L == 1) std::ranges::move_backward(b, i, e); else ::ranges::move_backward(b, i, e); *b = copy[0]; return all(); }
            IS("permute") { if constexpr(L == 0) { const bool q = std::next_permutation(b, e); return all(q); } else if constexpr(L == 1) { const bool q = std::ranges::next_permutation(r).found; return all(q); } else return skip; }
        }
        if constexpr(level == 3) {
            IS("sort") { (void) ALG(std::sort(b, e), rg::sort(r)); return all(); }
            IS("stable") { (void) ALG(std::stable_sort(b, e), rg::stable_sort(r)); return all(); }
            IS("heap") { if constexpr(L == 0) { std::make_heap(b, e); std::sort_heap(b, e); } else if constexpr(L == 1) { std::ranges::make_heap(r); std::ranges::sort_heap(r); } else { ::ranges::make_heap(r); ::ranges::sort_heap(r); } return all(); }
            IS("descending") { (void) ALG(std::sort(b, e, std::greater<>()), rg::sort(r, std::greater<>())); return all(); }
            IS("partial") { auto m = b + K; if constexpr(L == 0) std::partial_sort(b, m, e); else if constexpr(L == 1) std::ranges::partial_sort(r, m); else ::ranges::partial_sort(r, m); return text(0, std::ranges::subrange(b, m)); }
            IS("nth") { auto m = b + K; if constexpr(L == 0) std::nth_element(b, m, e); else if constexpr(L == 1) std::ranges::nth_element(r, m); else ::ranges::nth_element(r, m); return text(num(*m), std::vector<T>()); }
        }
    }
    return skip;
}
static std::vector<std::pair<std::string, std::string>> results;
template<typename Make> static void with(const char* name, Make make) {
    static const char* const libs[] = {"std", "std::ranges", "range-v3"};
    [&]<int... L>(std::integer_sequence<int, L...>) {
        ([&] { make([&](auto& r) { auto o = run<L>(r); if(o != skip) results.push_back({o, name + " with "s + libs[L]}); }); }(), ...);
    }(std::make_integer_sequence<int, 3>());
}
template<typename T, std::size_t N> static void fixed(const std::vector<T>& v) {
    if(v.size() != N) return;
    with("a view of fixed size", [&](auto f) { std::vector<T> w = v; xme::ArrayView<T, N> a(w.data(), w.data() + N); f(a); });
}
template<typename T> static void elements(const std::vector<int>& from) {
    const std::vector<T> v(from.begin(), from.end());
    with("an array", [&](auto f) { xme::Array<T> a(v.begin(), v.end()); f(a); });
    with("a constant array", [&](auto f) { const xme::Array<T> a(v.begin(), v.end()); f(a); });
    with("a view", [&](auto f) { auto w = v; xme::ArrayView<T> a(w.data(), w.size()); f(a); });
    with("a constant view", [&](auto f) { auto w = v; const xme::ArrayView<T> a(w.data(), w.size()); f(a); });
    with("a view of constants", [&](auto f) { xme::ArrayView<const T> a(v.data(), v.size()); f(a); });
    fixed<T, 0>(v); fixed<T, 1>(v); fixed<T, 2>(v); fixed<T, 3>(v); fixed<T, 4>(v); fixed<T, 5>(v);
    with("a list", [&](auto f) { xme::LinkedList<T> a(v.begin(), v.end()); f(a); });
    with("a constant list", [&](auto f) { const xme::LinkedList<T> a(v.begin(), v.end()); f(a); });
    with("part of a list", [&](auto f) { auto w = v; w.insert(w.begin(), T(5)); xme::LinkedList<T> a(w.begin(), w.end()); std::ranges::subrange s(std::next(a.begin()), a.end()); f(s); });
    if(std::is_sorted(v.rbegin(), v.rend())) with("a heap", [&](auto f) { xme::Heap<T> a; for(auto& i : v) a.push(i); f(a); });
    with("constant iterators", [&](auto f) { xme::Array<T> a(v.begin(), v.end()); std::ranges::subrange s(xme::make_const_iterator(a.begin()), xme::make_const_iterator(a.end())); f(s); });
    with("constant iterators of a list", [&](auto f) { xme::LinkedList<T> a(v.begin(), v.end()); std::ranges::subrange s(xme::make_const_iterator(a.begin()), xme::make_const_iterator(a.end())); f(s); });
    with("reverse iterators", [&](auto f) { auto w = v; std::reverse(w.begin(), w.end()); xme::Array<T> a(w.begin(), w.end()); std::ranges::subrange s(xme::ReverseIterator(a.end()), xme::ReverseIterator(a.begin())); f(s); });
    with("reverse iterators of a std::list", [&](auto f) { std::list<T> a(v.rbegin(), v.rend()); std::ranges::subrange s(xme::ReverseIterator(a.end()), xme::ReverseIterator(a.begin())); f(s); });
    with("constant iterators of a std::deque", [&](auto f) { std::deque<T> a(v.begin(), v.end()); std::ranges::subrange s(xme::make_const_iterator(a.begin()), xme::make_const_iterator(a.end())); f(s); });
    with("constant reverse iterators of a std::list", [&](auto f) { std::list<T> a(v.rbegin(), v.rend()); std::ranges::subrange s(xme::make_const_iterator(xme::ReverseIterator(a.end())), xme::make_const_iterator(xme::ReverseIterator(a.begin()))); f(s); });
    with("reverse iterators of a view", [&](auto f) { auto w = v; std::reverse(w.begin(), w.end()); xme::ArrayView<T> a(w.data(), w.size()); std::ranges::subrange s(xme::ReverseIterator(a.end()), xme::ReverseIterator(a.begin())); f(s); });
}
// the strongest concept each one can model, in both libraries
template<typename R> inline constexpr bool contiguous = std::ranges::random_access_range<R> && ::ranges::contiguous_range<R> && std::ranges::sized_range<R> && std::ranges::common_range<R> && ::ranges::sized_range<R> && ::ranges::common_range<R>;
static_assert(contiguous<xme::Array<int>> && contiguous<const xme::Array<int>> && contiguous<xme::Array<Word>> && contiguous<xme::ArrayView<int>> && contiguous<const xme::ArrayView<int>> && contiguous<xme::ArrayView<const Word, 3>> && contiguous<const xme::Heap<int>>);
static_assert(std::forward_iterator<xme::LinkedList<int>::iterator> && std::forward_iterator<xme::LinkedList<int>::const_iterator> && ::ranges::common_range<xme::LinkedList<int>>);
static_assert(std::indirectly_writable<xme::Array<int>::iterator, int> && !std::indirectly_writable<xme::Array<int>::const_iterator, int> && !std::indirectly_writable<xme::LinkedList<int>::const_iterator, int> && !std::indirectly_writable<xme::Heap<int>::const_iterator, int>);
template<typename I> inline constexpr bool anywhere = std::random_access_iterator<I> && ::ranges::random_access_iterator<I> && std::derived_from<typename std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag>;
template<typename I> inline constexpr bool forth = std::forward_iterator<I> && ::ranges::forward_iterator<I> && std::derived_from<typename std::iterator_traits<I>::iterator_category, std::forward_iterator_tag>;
template<typename I> inline constexpr bool back = forth<I> && std::bidirectional_iterator<I> && ::ranges::bidirectional_iterator<I> && std::derived_from<typename std::iterator_traits<I>::iterator_category, std::bidirectional_iterator_tag>;
template<typename I> inline constexpr bool fixed_for_good = !std::indirectly_writable<I, std::iter_value_t<I>> && !::ranges::indirectly_writable<I, std::iter_value_t<I>> && !std::is_assignable_v<std::iter_rvalue_reference_t<I>, std::iter_value_t<I>>;
template<typename T> consteval bool kinds() {
    using A = xme::Array<T>::iterator; using V = xme::ArrayView<T>::iterator; using L = xme::LinkedList<T>::iterator; using D = std::deque<T>::iterator; using B = std::list<T>::iterator;
    using xme::ConstIterator; using xme::ReverseIterator;
    static_assert(anywhere<A> && anywhere<typename xme::Array<T>::const_iterator> && anywhere<V> && anywhere<typename xme::Heap<T>::const_iterator> && forth<L> && forth<typename xme::LinkedList<T>::const_iterator>);
    static_assert(anywhere<ReverseIterator<A>> && anywhere<ReverseIterator<V>> && anywhere<ReverseIterator<D>> && anywhere<ConstIterator<A>> && anywhere<ConstIterator<V>> && anywhere<ConstIterator<D>> && anywhere<ConstIterator<ReverseIterator<A>>> && anywhere<ReverseIterator<ConstIterator<D>>>);
    static_assert(forth<ConstIterator<L>> && back<ReverseIterator<B>> && back<ConstIterator<B>> && back<ConstIterator<ReverseIterator<B>>>);
    static_assert(fixed_for_good<ConstIterator<A>> && fixed_for_good<ConstIterator<V>> && fixed_for_good<ConstIterator<L>> && fixed_for_good<ConstIterator<D>> && fixed_for_good<ConstIterator<B>> && fixed_for_good<ConstIterator<ReverseIterator<B>>> && fixed_for_good<ReverseIterator<ConstIterator<B>>>);
    static_assert(fixed_for_good<typename xme::Array<T>::const_iterator> && fixed_for_good<typename xme::LinkedList<T>::const_iterator> && fixed_for_good<typename xme::Heap<T>::const_iterator> && fixed_for_good<typename xme::ArrayView<const T>::iterator>);
    return true;
}
static_assert(kinds<ELEMENT>());
int main() {
    for(vp::Script in; in.next();) {
        if(in.op() == "end") break;
        if(in.op() == "reset") { std::puts("ok"); continue; }
        need = in.num(1); writes = in.num(2); op = in.tok[3]; X = in.num(4); K = in.num(5);
        results.clear();
        const auto v = in.rest(6);
        elements<ELEMENT>(v);
        std::string o = std::to_string(results.size()) + " " + (results.empty() ? "" : results[0].first);
        for(auto& [r, who] : results) if(r != results[0].first) { o += " but " + r + " of " + who; break; }
        std::puts(o.c_str());
    }
    std::puts("bye");
}
