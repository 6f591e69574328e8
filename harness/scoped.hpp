// Support for the generated programs of the scoped-delegate check
#pragma once
#include <algorithm>
#include <cstdio>
#include <concepts>
#include <exception>
#include <functional>
#include <memory>
#include <vector>
#include <xme/core/functional/scoped_delegate.hpp>
#include <xme/core/functional/delegate.hpp>
#include <xme/core/functional/bind.hpp>

inline std::vector<int> out;
inline volatile bool yes = true;
struct Stop {};
inline void say(int i) { out.push_back(i); }
inline void called(int d) { out.push_back(100 * (std::uncaught_exceptions() + 1) + d); }
template<int D> void plain() { called(D); }
struct Functor { int d; void operator()() const { called(d); } };
struct Counting { int d; int n = 0; int operator()() { if(n++) out.push_back(950 + d); called(d); return n; } };
struct Own {                                            // copyable only; must be alive when called
    std::shared_ptr<int> p; explicit Own(int d) : p(std::make_shared<int>(d)) {}
    void operator()() { called(p && *p < 100 ? *p : -1); }
    void still(int d) const { if(!p || *p != d) say(997); }
};
struct Moves {                                          // move-only
    std::unique_ptr<int> p; explicit Moves(int d) : p(new int(d)) {}
    void operator()() { called(p ? *p : -1); }
};
// runs a scope in a destructor, while an exception unwinds
struct Outer {};
template<typename F> struct Unwound { F f; ~Unwound() { try { f(); } catch(const Stop&) { say(900); } } };
template<typename F> Unwound(F) -> Unwound<F>;
