#pragma once
#include "constant.hpp"
#include <functional>
#include <initializer_list>
#include <xme/core/functional/scoped_delegate.hpp>
#include <xme/core/functional/bind.hpp>
namespace vp {
using Log = std::vector<int>;
constexpr bool yes = true;
struct Stop {};
constexpr void note(Log* out, int d) { out->push_back(100 + d); }
struct Functor { Log* o; int d; constexpr void operator()() const { note(o, d); } };
struct Counting { Log* o; int d; int n = 0; constexpr int operator()() { if(n++) o->push_back(950 + d); note(o, d); return n; } };
struct Owner {                                              // copyable only; must be alive when called
    Log* o; int* p; constexpr Owner(Log* o, int d) : o(o), p(new int(d)) {}
    constexpr Owner(const Owner& x) : o(x.o), p(new int(*x.p)) {}
    constexpr ~Owner() { delete p; }
    constexpr void operator()() { note(o, *p); }
};
struct Moves {                                              // move-only
    Log* o; int* p; constexpr Moves(Log* o, int d) : o(o), p(new int(d)) {}
    constexpr Moves(Moves&& x) noexcept : o(x.o), p(std::exchange(x.p, nullptr)) {}
    constexpr ~Moves() { delete p; }
    constexpr void operator()() { if(p) note(o, *p); else o->push_back(-1); }
};
constexpr bool logs(void (*p)(Log&), std::initializer_list<int> want) { Log out; p(out); return std::equal(out.begin(), out.end(), want.begin(), want.end()); }
}
#define say(i) out.push_back(i)
