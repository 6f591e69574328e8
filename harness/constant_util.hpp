#pragma once
#include "constant.hpp"
#include <cstdint>
#include <xme/core/bit/has_single_bit.hpp>
#include <xme/core/utility/forward_like.hpp>
#include <xme/core/utility/to_unsigned.hpp>
#include <xme/container/array_view.hpp>
#include <xme/math/scalars/functions.hpp>
#include <xme/ranges/destroy.hpp>
#include <xme/ranges/uninitialized.hpp>
namespace vp {
template<typename T> constexpr bool number(std::span<const int> bits, int single, int sign) {
    using U = std::conditional_t<sizeof(T) == 1, std::uint8_t, std::conditional_t<sizeof(T) == 2, std::uint16_t, std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>>>;
    U u = 0;
    for(int b : bits) u = U(u | U(1) << b);
    const T t = static_cast<T>(u);
    if(xme::to_unsigned(t) != u || std::is_signed_v<decltype(xme::to_unsigned(t))>) return false;
    if constexpr(std::is_unsigned_v<T>) { if(xme::has_single_bit(t) != bool(single)) return false; }
    else if constexpr(std::is_signed_v<T> && !std::is_same_v<T, wchar_t>) if(xme::math::sign(t) != sign) return false;
    return true;
}
enum class E8 : signed char {}; enum Old : long {};
template<int> constexpr int numbers(const int* p, const int* e) {
    Reader r{p, e};
    for(int i = 0; r; ++i) {
        const int w = r.get(), single = r.get(), sign = r.get(); const auto b = r.list();
        if(!(w == 8 ? number<unsigned char>(b, single, sign) && number<signed char>(b, single, sign) && number<char8_t>(b, single, sign) && number<E8>(b, single, sign)
           : w == 16 ? number<unsigned short>(b, single, sign) && number<short>(b, single, sign) && number<char16_t>(b, single, sign)
           : w == 32 ? number<unsigned>(b, single, sign) && number<int>(b, single, sign) && number<char32_t>(b, single, sign) && number<wchar_t>(b, single, sign)
           : number<unsigned long>(b, single, sign) && number<long>(b, single, sign) && number<unsigned long long>(b, single, sign) && number<long long>(b, single, sign) && number<Old>(b, single, sign))) return i;
    }
    return -1;
}
// forward_like: the argument forwarded by one that is like A
template<typename A, typename B> constexpr bool like(int category, bool konst) {
    using R = decltype(xme::forward_like<A>(std::declval<B>()));
    using X = std::remove_reference_t<R>;
    std::remove_cvref_t<B> v = 5;
    auto&& w = xme::forward_like<A>(static_cast<B>(v));
    return std::is_lvalue_reference_v<R> == bool(category) && std::is_const_v<X> == konst && &static_cast<const int&>(w) == &v && w == 5;
}
// construction in memory and destruction
template<typename T> constexpr bool constructs(int op, int ni, int no) {
    std::allocator<T> al;
    T* out = al.allocate(std::size_t(no + 1));
    std::vector<T> in;
    for(int i = 0; i < ni; ++i) in.push_back(T(10 + i));
    const T value(7);
    int done = 0;
    bool good = true;
    auto check = [&](int n, bool fill) { done = n; for(int i = 0; i < n; ++i) if(rd(out[i]) != (fill ? 7 : 10 + i)) good = false; for(int i = 0; i < ni; ++i) if(rd(in[std::size_t(i)]) != 10 + i) good = false; };
    const int n = ni < no ? ni : no;
    for(int form = 0; form < 4; ++form) {
        if(op == H("copy")) {
            if(form == 0) { auto r = xme::ranges::uninitialized_copy_a(in.begin(), in.end(), out, out + no, al); good &= r.first - in.begin() == n && r.second - out == n; }
            else if(form == 1) { auto r = xme::ranges::uninitialized_copy_a(Fwd<const T>{in.data()}, Fwd<const T>{in.data() + ni}, Fwd<T>{out}, Fwd<T>{out + no}, al); good &= r.first.p - in.data() == n && r.second.p - out == n; }
            else if(form == 2) { std::span<T> s(out, std::size_t(no)); auto r = xme::ranges::uninitialized_copy_a(in, s, al); good &= r.first - in.begin() == n && r.second - s.begin() == n; }
            else { xme::ArrayView<T> s(out, std::size_t(no)); std::span<const T> f(in); auto r = xme::ranges::uninitialized_copy_a(f, s, al); good &= r.first - f.begin() == n; }
            check(n, false);
        }
        else {
            if(form % 2 == 0) good &= xme::ranges::uninitialized_fill_n_a(out, std::size_t(no), value, al) - out == no; else good &= xme::ranges::uninitialized_fill_n_a(Fwd<T>{out}, std::size_t(no), value, al).p - out == no;
            check(no, true);
        }
        if(form == 0) xme::ranges::destroy_a(out, out + done, al);
        else if(form == 1) xme::ranges::destroy_n_a(out, done, al);
        else if(form == 2) { std::span<T> s(out, std::size_t(done)); xme::ranges::destroy_a(s, al); }
        else for(int i = 0; i < done; ++i) xme::ranges::destroy_at_a(out + i, al);
    }
    al.deallocate(out, std::size_t(no + 1));
    return good;
}
template<int> constexpr int memory(const int* p, const int* e) {
    Reader r{p, e};
    for(int i = 0; r; ++i) { const int op = r.get(), ni = r.get(), no = r.get(); if(!constructs<int>(op, ni, no) || !constructs<Own<true>>(op, ni, no)) return i; }
    return -1;
}
}
