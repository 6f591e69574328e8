"""C32: type predicates (spec/Traits): every case becomes a constant of a generated program."""
import re
from ..core import *

PRELUDE = """#include <initializer_list>
#include <vector>
#include <string>
#include <tuple>
#include <array>
#include <memory>
#include <list>
#include <iterator>
#include <cstdio>
#include <xme/core/concepts/concepts.hpp>
#include <xme/core/concepts/constant_iterator.hpp>
#include <xme/core/type_traits/is_scoped_enum.hpp>
#include <xme/core/type_traits/is_initializer_list.hpp>
#include <xme/container/concepts.hpp>
#include <xme/container/tuple.hpp>
#include <xme/container/pair.hpp>
struct Class { int m; };
struct Convertible { operator int() const; };
union Union { int a; float b; };
using FnPtr = int (*)(int);
inline auto lambda = [](int) { return 1; };
using Lambda = decltype(lambda);
enum class Scoped { a };
using EnumPtr = Scoped*;
template<class T> struct Wrap { T t; };
struct MoveOnly { MoveOnly() = default; MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; };
struct Stranger {};
"""


def typ(b, cv, ref):
    if b == "int[3]":
        t = "Arr3"
    elif b == "int()":
        return "int()"
    elif b == "int[]":
        return "int[]"
    elif b in ("int Class::*", "int*", "void*"):
        t = {"int Class::*": "Member", "int*": "IntPtr", "void*": "VoidPtr"}[b]
    else:
        t = b
    return (cv + " " + t + ref).strip()


class Gen:
    def __init__(self):
        self.decl, self.seen, self.rows = ["using Arr3 = int[3];", "using Member = int Class::*;", "using IntPtr = int*;", "using VoidPtr = void*;"], {}, []

    def name(self, key, make):
        if key not in self.seen:
            n = "H%d" % len(self.seen)
            self.seen[key] = n
            self.decl.append(make(n))
        return self.seen[key]

    def row(self, what, expr, want):
        self.rows.append((what, expr, bool(want)))

    def add(self, e):
        k, t = e["k"], e["t"]
        if k in ("type", "enum"):
            if k == "enum":
                en = t["e"]
                b = self.name(("enum", en["k"], en["u"]), lambda n: "%s %s%s { %s_a, %s_b };" % (en["k"], n, " : " + en["u"] if en["u"] else "", n, n))
                said = "%s%s" % (en["k"], " : " + en["u"] if en["u"] else "")
            else:
                b = said = t["b"]
            x = typ(b, t["cv"], t["ref"])
            for p, c in (("floating", "CFloatingPoint"), ("integral", "CIntegral"), ("signed", "CSignedIntegral"), ("unsigned", "CUnsignedIntegral"), ("arithmetic", "CArithmetic"), ("scoped", "is_scoped_enum")):
                self.row("%s<%s %s%s>" % (c, t["cv"], said, t["ref"]), "xme::%s<%s>" % (c, x), e["r"][p])
        elif k == "list":
            x = typ(t["b"], t["cv"], t["ref"])
            self.row("is_initializer_list<%s>" % x, "xme::is_initializer_list<%s>" % x, e["r"])
        elif k == "different":
            a, b = typ(t["b"], t["cv"], t["ref"]), typ(e["u"]["b"], e["u"]["cv"], e["u"]["ref"])
            self.row("CDifferentFrom<%s, %s>" % (a, b), "xme::CDifferentFrom<%s, %s>" % (a, b), e["r"])
            self.row("CDifferentFromSelf<%s, %s>" % (a, b), "xme::CDifferentFromSelf<%s, %s>" % (a, b), e["self"])
        elif k == "tuple":
            args = "%s, %d" % (t["el"], t["n"]) if t["k"] == "std::array" else ", ".join([t["el"]] * t["n"])
            x = typ("%s<%s>" % (t["k"], args), t["cv"], t["ref"])
            self.row("CTupleLike<%s>" % x, "xme::CTupleLike<%s>" % x, e["r"])
            self.row("CPairLike<%s>" % x, "xme::CPairLike<%s>" % x, e["pair"])
        elif k == "nontuple":
            x = typ(t["b"], t["cv"], t["ref"])
            self.row("CTupleLike<%s>" % x, "xme::CTupleLike<%s>" % x, e["r"])
            self.row("CPairLike<%s>" % x, "xme::CPairLike<%s>" % x, e["r"])
        elif k == "homemade":
            def make(n):
                s = "namespace user { struct %s { %s }; " % (n, " ".join("int v%d = 0;" % i for i in range(t["n"])))
                s += "template<std::size_t I> struct %sGet;" % n
                for i in range(t["n"]):
                    bad = t["bad"] == i + 1 and t["miss"]
                    if bad != "get":
                        s += " template<std::size_t I> requires(I == %d) auto get(const %s& x) -> %s { return {}; }" % (i, n, "Stranger" if bad == "type" else "int")
                s += " }\n"
                if t["size"] != "absent":
                    s += "template<> struct std::tuple_size<user::%s> %s {%s};\n" % (n, ": std::integral_constant<std::size_t, %d>" % t["n"] if t["size"] == "right" else "", "" if t["size"] == "right" else " static constexpr std::size_t value = %d; using type = tuple_size; " % t["n"])
                for i in range(t["n"]):
                    if not (t["bad"] == i + 1 and t["miss"] == "element"):
                        s += "template<> struct std::tuple_element<%d, user::%s> { using type = int; };\n" % (i, n)
                return s
            n = self.name(("homemade", t["size"], t["n"], t["bad"], t["miss"]), make)
            x = typ("user::" + n, t["cv"], t["ref"])
            said = "%s%s%s with tuple_size %s of %d elements%s" % (t["cv"], " class", t["ref"], t["size"], t["n"], ", element %d lacks %s" % (t["bad"], t["miss"]) if t["bad"] else "")
            self.row("CTupleLike<%s>" % said, "xme::CTupleLike<%s>" % x, e["r"])
            self.row("CPairLike<%s>" % said, "xme::CPairLike<%s>" % x, e["pair"])
        elif k == "allocator":
            def make(n):
                s = "struct %s {" % n
                if t["value"]:
                    s += " using value_type = long;"
                if t["size"]:
                    s += " using size_type = std::size_t;"
                if t["diff"]:
                    s += " using difference_type = std::ptrdiff_t;"
                s += {"right": " long* allocate(std::size_t);", "absent": "", "void*": " void* allocate(std::size_t);", "const": " const long* allocate(std::size_t);", "static": " static long* allocate(std::size_t);", "noexcept": " long* allocate(std::size_t) noexcept;"}[t["allocate"]]
                s += {"right": " void deallocate(long*, std::size_t);", "absent": "", "unary": " void deallocate(long*);", "static": " static void deallocate(long*, std::size_t);", "noexcept": " void deallocate(long*, std::size_t) noexcept;"}[t["deallocate"]]
                return s + " };"
            n = self.name(("alloc",) + tuple(t[f] for f in ("value", "size", "diff", "allocate", "deallocate")), make)
            self.row("CAllocator<a class%s with %s>" % (t["ref"], ", ".join("%s: %s" % (f, t[f]) for f in ("value", "size", "diff", "allocate", "deallocate"))), "xme::CAllocator<%s%s>" % (n, t["ref"]), e["r"])
        elif k == "iterator":
            def make(n):
                ref = t["ref"]
                s = "struct %s { using value_type = int; using difference_type = std::ptrdiff_t;" % n
                s += " using iterator_concept = std::%s_iterator_tag;" % {"random": "random_access", "forward": "forward"}.get(t["shape"], "input")
                if t["shape"] != "no dereference":
                    s += " %s operator*() const;" % ref
                if t["shape"] != "no increment":
                    s += " %s& operator++(); %s operator++(int);" % (n, n)
                s += " bool operator==(const %s&) const;" % n
                if t["shape"] == "random":
                    s += (" %s& operator--(); %s operator--(int); %s& operator+=(long); %s& operator-=(long); std::strong_ordering operator<=>(const %s&) const; %s operator[](long) const;"
                          " friend %s operator+(%s, long); friend %s operator+(long, %s); friend %s operator-(%s, long); friend std::ptrdiff_t operator-(%s, %s);") % ((n,) * 5 + (ref,) + (n,) * 8)
                return s + " };"
            n = self.name(("iter", t["ref"], t["shape"]), make)
            self.row("CConstantIterator<%s iterator (%s) over %s>" % (t["cv"], t["shape"], t["ref"]), "xme::CConstantIterator<%s %s>" % (t["cv"], n), e["r"])


PROXY = """
struct Proxy { operator int() const; Proxy& operator=(int); const Proxy& operator=(int) const; };
template<template<class> class Q1, template<class> class Q2> struct std::basic_common_reference<Proxy, int, Q1, Q2> { using type = int; };
template<template<class> class Q1, template<class> class Q2> struct std::basic_common_reference<int, Proxy, Q1, Q2> { using type = int; };
"""


def c32(c):
    r = c.tlc("Traits", "INIT Init\nNEXT Next\nCONSTANT Deep = %s\nINVARIANTS Laws Emit\nCHECK_DEADLOCK FALSE\n" % ("TRUE" if c.thorough else "FALSE"))
    if not r.completed:
        raise CheckError("TLC did not complete on Traits")
    cases = list(r.emits())
    shards = 8
    gens = []
    for i in range(shards):
        g = Gen()
        for e in cases[i::shards]:
            g.add(e)
        gens.append(g)
    lib = Gen()                               # iterators of the libraries, and the concepts on them (the same rule: what * gives)
    for t, want in (("int*", 0), ("const int*", 1), ("std::vector<int>::iterator", 0), ("std::vector<int>::const_iterator", 1), ("std::vector<bool>::iterator", 0), ("std::vector<bool>::const_iterator", 1),
                    ("std::list<int>::iterator", 0), ("std::list<int>::const_iterator", 1), ("std::move_iterator<int*>", 0), ("std::istream_iterator<int>", 1), ("std::reverse_iterator<const int*>", 1),
                    ("std::reverse_iterator<int*>", 0), ("int", 0), ("void*", 0), ("std::vector<int>", 0)):
        lib.row("CConstantIterator<%s>" % t, "xme::CConstantIterator<%s>" % t, want)
    gens.append(lib)
    jobs = []
    for i, g in enumerate(gens):
        body = PRELUDE + PROXY + "\n".join(g.decl) + "\nconstexpr bool result[] = {\n" + ",\n".join("(%s)" % e for _, e, _ in g.rows) + "};\nint main() { for(bool b : result) std::putchar(b ? '1' : '0'); }\n"
        src = c.write("traits%d.cpp" % i, body)
        for cxx in ("g++", "clang++"):
            jobs.append(dict(src=src, cxx=cxx, flags=["-O0"]))
    bins = c.build_all(jobs)
    for n, b in enumerate(bins):
        if not b:
            continue
        rows = gens[n // 2].rows
        rc, out, err = c.run(b)
        if rc or len(out) != len(rows):
            raise CheckError("the program of the predicates fails: %d %s" % (rc, err[-300:]))
        for (what, _, want), got in zip(rows, out):
            if (got == "1") != want:
                c.violation("%s is %s (%s)" % (re.sub(" +", " ", what).replace("< ", "<"), got == "1", ("gcc", "clang")[n % 2]), {"kind": "predicate", "what": what}, key="predicate")
        c.traces += 1
        c.steps += len(rows)
    c.notes["predicates"] = sum(len(g.rows) for g in gens)
    c.sample({"predicate": gens[0].rows[0][0]})
    c.assumptions.append("x86-64 Linux signedness of char and wchar_t; initializer lists with qualifiers are not judged")
