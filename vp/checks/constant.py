"""C34: constant expressions (histories of spec/Array, Heap, ArrayView, Iter, Search, Reverse, Tuple, Bind and the mathematics, evaluated by the compiler)."""
import random
import re
import subprocess
import concurrent.futures as cf
from ..core import *
from ..graph import Graph
from . import array, scoped, tuple as tuples

GCC = ["g++", "-std=c++20", "-fsyntax-only", "-w", "-fmax-errors=3", "-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=2000000", "-fconstexpr-depth=4000"]
CLANG = ["clang++", "-std=c++20", "-fsyntax-only", "-w", "-ferror-limit=3", "-fconstexpr-steps=2000000000", "-fconstexpr-depth=4000"]


def H(s):
    h = 2166136261
    for ch in s.encode():
        h = ((h ^ ch) * 16777619) & 0xffffffff
    return h & 0x7fffffff


def items(l):
    l = list(l)
    return [len(l)] + l


class Units:
    """The translation units: each has histories, one static_assert apiece."""
    def __init__(self, c, rng):
        self.c, self.rng, self.all = c, rng, []

    def add(self, what, header, call, histories, size=40000, flags=()):
        """call: the interpreter; histories: [(integers, [text of each step])]"""
        part, n = [], 0
        for h in histories:
            if part and n + len(h[0]) > size:
                self.all.append((what, header, call, part, list(flags)))
                part, n = [], 0
            part.append(h)
            n += len(h[0])
        if part:
            self.all.append((what, header, call, part, list(flags)))

    def compile(self, n, cxx):
        what, header, call, hs, flags = self.all[n]
        f = self.c.path("constant-%d-%s.cpp" % (n, cxx[0]))
        text = ['#include "%s"' % header, "using namespace vp;"]
        for i, (ints, _) in enumerate(hs):
            if isinstance(ints, tuple):            # a program
                text += [ints[0], ints[1]]
                continue
            text.append("constexpr int s%d[] = {%s};" % (i, ",".join(map(str, ints))))
            text.append("static_assert(%s(s%d, std::end(s%d)) == -1);" % (call, i, i))
        with open(f, "w") as o:
            o.write("\n".join(text) + "\n")
        try:
            r = subprocess.run(cxx + flags + ["-I" + os.path.join(REPO, "include"), "-I" + HARNESS, f], capture_output=True, text=True, errors="replace", timeout=600)
        except subprocess.TimeoutExpired:
            raise CheckError("the evaluation of %s takes too long" % what)
        with self.c.lock:
            self.c.traces += len(hs)
            self.c.steps += sum(len(s) for _, s in hs)
        if r.returncode == 0:
            os.remove(f)
            return None
        return r.stderr, f, text

    def run(self):
        jobs = []
        for n, u in enumerate(self.all):
            jobs += [(n, GCC), (n, CLANG)] if self.c.thorough else [(n, GCC if n % 2 else CLANG)]
        t = {}

        def one(j):
            t0 = time.time()
            r = self.compile(*j)
            t.setdefault((self.all[j[0]][0], j[1][0]), []).append(time.time() - t0)
            return r
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, jobs))
        for k, v in sorted(t.items(), key=lambda x: -sum(x[1]))[:22]:
            self.c.log("%-40s %s units %d, slowest %.1fs, together %.1fs" % (k[0], k[1], len(v), max(v), sum(v)))
        bad = [(j, r) for j, r in zip(jobs, res) if r]
        if not bad:
            return
        self.c._control_build()
        said = set()
        for (n, cxx), (err, f, text) in bad:
            what, header, call, hs, _ = self.all[n]
            if "virtual memory exhausted" in err or "Killed" in err or "internal compiler error" in err and "static assertion" not in err:
                raise CheckError("the compiler failed on %s: %s" % (what, err[-600:]))
            m = re.search(re.escape(f) + r":(\d+):\d+: error", err)
            line = int(m.group(1)) if m else 0
            i = (line - 3) // 2
            if 0 <= i < len(hs) and (line - 3) % 2:
                k = re.search(r"\(?(-?\d+) == -1", err)
                steps = hs[i][1]
                if k and 0 <= int(k.group(1)) < len(steps):
                    k = int(k.group(1))
                    msg = "the constant history `%s` differs from the specification at its last step" % " ; ".join(steps[max(0, k - 8):k + 1])
                else:
                    why = [l for l in err.splitlines() if "error:" in l or "note:" in l]
                    msg = "the history `%s` is not a constant expression: %s" % (" ; ".join(steps[:12]), " / ".join(re.sub(r"^\S+ ", "", l)[:200] for l in why[:4]))
            else:
                msg = "it does not compile: " + " / ".join(l[:300] for l in err.splitlines() if "error:" in l)[:900]
            if what in said:
                continue
            said.add(what)
            self.c.violation("%s (%s): %s" % (what, cxx[0], msg), {"kind": "constant", "command": " ".join(cxx), "header": header, "source": "\n".join(text)[:200000], "stderr": err[-4000:]}, key="constant:" + what)


def parse(line):
    m = re.match(r"(-?\d+) \[([^]]*)\] \[([^]]*)\]", line)
    li = lambda s: [int(v) for v in s.split(",")] if s else []
    return int(m.group(1)), li(m.group(2)), li(m.group(3))


def arrays(c, u, rng):
    k = dict(MaxLen=3, MaxCap=4, BLen=2, BCap=2) if not c.thorough else dict(MaxLen=4, MaxCap=5, MaxRange=2, BLen=2, BCap=3)
    emits = array.model(c, **k)
    for T, drop in (("int", None), ("Own<true>", None), ("Own<false>", array.NEED_COPY)):
        g = Graph(emits, [0, 0, 0, 0], (lambda a: a["op"] not in drop) if drop else None)
        hs = []
        for ls, xs in array.scripts_of(g, g.walks(120, rng)):
            ints, at, A = [], [], []
            for l, x in zip(ls[1:], xs[1:]):
                op, *args = l.split()
                r, a, b = parse(x)
                ints += [H(op)] + items(map(int, args)) + [r] + items(a) + items(b)
                at.append(l)
            hs.append((ints, at))
        u.add("Array<%s>" % T, "constant_array.hpp", "arrays<%s>" % T, hs)
        c.log("Array", T, len(g.edges), "edges", len(hs), "histories", sum(len(h[0]) for h in hs), "integers")
    c.sample({"what": "Array<int>", "history": hs[0][1][:10]})


def heaps(c, u, rng):
    n, ranks = (6, 3) if c.thorough else (5, 3)
    r = c.tlc("Heap", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d Ranks = {%s}\nVIEW View\nINVARIANT Ordered FrontGreatest\nPROPERTY Conserves\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (n, ",".join(map(str, range(ranks)))))
    if not r.completed:
        raise CheckError("TLC did not complete on Heap")
    g = Graph(r.emits(), [])
    for T, cmp in (("int", "std::less<>"), ("Own<true>", "Greater"), ("Own<false>", "std::less<>"), ("int", "Greater")):
        hs = []
        for w in g.walks(60, rng):
            ints, at, bag = [], [], [0] * ranks
            def step(op, *x):
                ints.extend([H(op)] + list(x) + items(bag))
                at.append(" ".join(map(str, (op,) + x)))
            for e in w:
                f, a, t = g.edges[e]
                bag = [g.views[t].count(k) for k in range(ranks)]
                if a["op"] == "push":
                    step(rng.choice(["push", "emplace"] + ([] if "false" in T else ["pushl"])), a["x"])
                else:
                    step("pop")
                if rng.random() < 0.05:
                    step("move" if "false" in T else rng.choice(["copy", "move", "range"]))
            while sum(bag):
                bag[max(k for k in range(ranks) if bag[k])] -= 1
                step("pop")
            hs.append((ints, at))
        u.add("Heap<%s, %s>" % (T, cmp), "constant_array.hpp", "heaps<%s, %s>" % (T, cmp), hs)
        c.log("Heap", T, len(hs), "histories")


SOURCES = ("carr", "stdarr", "ccarr", "cstdarr", "carrdyn", "stdarrdyn", "vector", "xarray", "span", "cvector", "cxarray", "cspan")


def views(c, u, rng):
    r = c.tlc("ArrayView", "INIT Init\nNEXT Next\nCONSTANTS MaxN = %d\nVIEW state\nINVARIANT Inside\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (5 if c.thorough else 3))
    if not r.completed:
        raise CheckError("TLC did not complete on ArrayView")
    emits = list(r.emits())
    for T in ("int", "Own<true>"):
        g = Graph(emits, [0, -1, 0, False, False], lambda a: "bytes" not in a)
        hs = []
        for w in g.walks(150, rng):
            ints, at, mem, nxt = [], [], [], 100
            for e in w:
                f, a, t = g.edges[e]
                x = list(a["x"])
                if a["op"] in SOURCES:
                    mem = [10 + i for i in range(x[0])]
                elif a["op"][0] == "w":
                    nxt += 1
                    x.append(nxt)
                    for i in a["wrote"]:
                        mem[i] = nxt
                ints += [H(a["op"])] + items(x) + items(a["cells"]) + [a["at"], int(a["st"])] + items(mem)
                at.append(" ".join(map(str, [a["op"]] + x)))
            hs.append((ints, at))
        u.add("ArrayView<%s>" % T, "constant_view.hpp", "views<%s>" % T, hs)
        c.log("ArrayView", T, len(g.edges), "edges", len(hs), "histories")


# the iterators x and y: types, directions, conversions, comparable, writable
PAIRS = [
    ("the iterators of Array", "ArraySeq, ArraySeq::it, false, ArraySeq::it, false", 0, 0, "xy", 1, "xy"),
    ("Array's iterator and const iterator", "ArraySeq, ArraySeq::it, false, ArraySeq::cit, false", 0, 0, "x", 1, "x"),
    ("the const iterators of Array", "ArraySeq, ArraySeq::cit, false, ArraySeq::cit, false", 0, 0, "xy", 1, ""),
    ("ConstIterator of pointers", "RawSeq, Cn<V*>, false, Cn<V*>, false", 0, 0, "xy", 1, ""),
    ("ConstIterator of Array's", "ArraySeq, Cn<ArraySeq::it>, false, Cn<ArraySeq::it>, false", 0, 0, "xy", 1, ""),
    ("ConstIterator and pointer", "RawSeq, Cn<V*>, false, V*, false", 0, 0, "y", 1, "y"),
    ("ConstIterators of V* and const V*", "RawSeq, Cn<V*>, false, Cn<const V*>, false", 0, 0, "x", 1, ""),
    ("ReverseIterator of pointers", "RawSeq, Rv<V*>, true, Rv<V*>, true", 1, 1, "xy", 1, "xy"),
    ("ReverseIterator and pointer", "RawSeq, Rv<V*>, true, V*, false", 1, 0, "y", 0, "xy"),
    ("ReverseIterators of V* and const V*", "RawSeq, Rv<V*>, true, Rv<const V*>, true", 1, 1, "x", 1, "x"),
    ("ReverseIterator of Array's", "ArraySeq, Rv<ArraySeq::it>, true, Rv<ArraySeq::it>, true", 1, 1, "xy", 1, "xy"),
    ("ReverseIterators of Array's iterator and const iterator", "ArraySeq, Rv<ArraySeq::it>, true, Rv<ArraySeq::cit>, true", 1, 1, "x", 1, "x"),
    ("ConstIterator of ReverseIterator", "RawSeq, Cn<Rv<V*>>, true, Rv<V*>, true", 1, 1, "y", 1, "y"),
]


def iterators(c, u, rng):
    b = lambda x: "TRUE" if x else "FALSE"
    slots = lambda s: "{%s}" % ", ".join('"%s"' % x for x in s)
    ns = [0, 1, 2, 4] if c.thorough else [0, 1, 3]
    specs = {}

    def spec(s):
        r = c.tlc("Iter", "INIT Init\nNEXT Next\nCONSTANTS Ns = {%s} Cat = 3 RevX = %s RevY = %s Conv = %s Cmp = %s Wr = %s Ordered = TRUE\nVIEW View\nINVARIANTS TypeOK Laws\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (
            ",".join(map(str, ns)), b(s[0]), b(s[1]), slots(s[2]), b(s[3]), slots(s[4])))
        if not r.completed:
            raise CheckError("TLC did not complete on Iter")
        return list(r.emits())
    shapes = sorted({p[2:] for p in PAIRS})
    with cf.ThreadPoolExecutor(4) as ex:
        specs = dict(zip(shapes, ex.map(spec, shapes)))
    for name, types, *s in PAIRS:
        hs = []
        keep = lambda a: not (a["op"] == "distance" and (a["s"] == "x" and name.startswith("Array's") or name.startswith("ConstIterators of V*")))
        for n in ns:
            g = Graph([e for e in specs[tuple(s)] if e["f"][0] == n], [n, {"x": 0, "y": 0}, []], keep)
            for w in g.walks(150, rng):
                ints, at = [n], []
                for e in w:
                    f, a, t = g.edges[e]
                    op, r = a["op"], a["r"]
                    wr = 0
                    if op in ("*i=", "i->=", "i[k]="):
                        wr, r = a["r"] if op == "i[k]=" else a["k"], 0
                    elif op == "compare":
                        r = int("1" + "".join("1" if x else "0" for x in r))
                    elif op.startswith("walk"):
                        v = 1
                        for x in r:
                            v = v * 7 + x
                        r = v
                    ints += [H(op), "xy".index(a["s"]), a["k"], wr, r]
                    at.append("%s %s %d" % (op, a["s"], a["k"]))
                hs.append((ints, at))
        u.add(name, "constant_iter.hpp", "iterators<%s>" % types, hs)


def searches(c, u, rng):
    cfg = "INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Never = %s MaxN = %d Long = {%s}\n"
    finds = []
    for never, n, long in (("FALSE", 20 if c.thorough else 11, "16,32,33,70"), ("TRUE", 12, "16,40")):
        r = c.tlc("Search", cfg % (never, n, long))
        if not r.completed:
            raise CheckError("TLC did not complete on Search")
        for e in r.emits():
            n, p, q = e["n"], e["p"], e["q"]
            cell = lambda i: (3 if never == "TRUE" else 0) if i < p else {"eq": 1, "eqv": 2}[e["e"]] if i == p else 1 if q == "next" and i == p + 1 or q == "last" and i == n - 1 or q == "all" else 2 if q == "other" and i % 2 else 0
            finds.append((items(cell(i) for i in range(n)) + [e["r"]], "n=%d p=%d %s %s" % (n, p, e["e"], q)))
    r = c.tlc("Reverse", "INIT Init\nNEXT Next\nINVARIANTS Right Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxN = %d Long = {%s} Before = {0, 1, 5} Behind = {0, 1, 7}\n" % (40 if c.thorough else 12, "16,17,31,32,33,64,65,100"))
    if not r.completed:
        raise CheckError("TLC did not complete on Reverse")
    revs = [([e["l"], e["n"]] + items(e["mem"]), "%d cells behind %d" % (e["n"], e["l"])) for e in r.emits()]
    for what, call, cases in (("find", "finding<0>", finds), ("reverse", "reversing<0>", revs)):
        rng.shuffle(cases)
        cases = cases if c.thorough else cases[:len(cases) * 2 // 5]
        hs = [([x for s in cases[i:i + 20] for x in s[0]], [s[1] for s in cases[i:i + 20]]) for i in range(0, len(cases), 20)]
        u.add(what, "constant_iter.hpp", call, hs, size=4000)
        u.add(what + " with AVX2", "constant_iter.hpp", call, hs[::2], size=4000, flags=["-mavx2", "-DXME_SIMD_ENABLE_AVX2"])


def tuples_(c, u, rng):
    kinds = [("xme::Tuple<A0,A1>", 2, 1), ("xme::Pair<A1,A0>", 2, 1), ("xme::Pair<M0,M1>", 2, 0), ("xme::Tuple<M1,M0>", 2, 0), ("xme::Tuple<A1>", 1, 1), ("xme::Tuple<A0,A1,A0>", 3, 1), ("xme::Tuple<M0,M1,M0>", 3, 0)]
    specs = {}
    for k, d in ((1, 3), (2, 2), (3, 1)):
        r = c.tlc("Tuple", "INIT Init\nNEXT Next\nCONSTANTS K = %d D = %d\nVIEW state\nINVARIANT Types\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (k, d + (1 if c.thorough else 0)))
        if not r.completed:
            raise CheckError("TLC did not complete on Tuple")
        specs[k] = list(r.emits())
    for t, k, copy in kinds:
        g = Graph(specs[k], [[0] * k, [0] * k], lambda a: copy or not tuples.uses_copy(a))
        hs = []
        for w in g.walks(150, rng):
            ints, at = [], []
            for e in w:
                f, a, s = g.edges[e]
                s = g.views[s]
                ints += [H(a["op"] + " " + a["how"])] + items(a["x"]) + items(a["r"]) + items(s[0]) + items(s[1])
                at.append(" ".join(map(str, [a["op"], a["how"]] + list(a["x"]))))
            hs.append((ints, at))
        u.add(t, "constant_tuple.hpp", "tuples<%s>" % t, hs)
        c.log(t, len(g.edges), "edges")


def binds(c, u, rng):
    dof = {0: 2, 1: 2, 2: 2, 3: 2}
    combos = [(k, f) for k in range(4) for f in (1, 0)]

    def spec(kf):
        k, f = kf
        r = c.tlc("Bind", "INIT Init\nNEXT Next\nCONSTANTS K = %d D = %d Front = %s Long = %d\nVIEW View\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (k, dof[k], "TRUE" if f else "FALSE", 1 if k < 2 or c.thorough and k == 2 else 0))
        if not r.completed:
            raise CheckError("TLC did not complete on Bind")
        return list(r.emits())
    with cf.ThreadPoolExecutor(4) as ex:
        specs = dict(zip(combos, ex.map(spec, combos)))
    for k, f in combos:
        init = [dict(v=[1] * k, n=0, ref=False)] * 2 + [1]
        for copy in (1, 0):
            ops = {"bind", "call", "copy", "move"}
            g = Graph(specs[(k, f)], init, lambda a: a["op"] in ops and a["how"] != "ref" and (copy or not (a["op"] == "copy" or a["op"] == "bind" and a["how"] != "r")))
            hs = []
            for w in g.walks(150, rng):
                ints, at = [dof[k]], []
                for e in w:
                    _, a, _ = g.edges[e]
                    if a["op"] == "call":
                        cats = "".join(a["x"][1])
                        want = [ord(a["r"][0]), a["r"][1]] + [v for x in a["r"][2] for v in (x[0], ord(x[1]))]
                        ints += [H("call " + a["how"])] + items([ord(a["x"][0]), H("_" + cats)]) + items(want)
                        at.append("call %s as %s with (%s)" % (a["how"], a["x"][0], cats))
                    else:
                        ints += [H(a["op"] + " " + a["how"])] + items(a["x"]) + items(a["r"] if a["op"] == "bind" else [])
                        at.append(" ".join(map(str, [a["op"], a["how"]] + list(a["x"]))))
                hs.append((ints, at))
            u.add("%s with %d bound%s" % ("bind_front" if f else "bind_back", k, "" if copy else " (move-only)"), "constant_tuple.hpp", "bounds<%d, %s, %s>" % (k, "true" if f else "false", "true" if copy else "false"), hs)


# how a delegate is declared: text before it, initializer
CALLABLES = [
    lambda d: ("", "[&]{ note(&out, %d); }" % d),
    lambda d: ("Functor f%d{&out, %d};" % (d, d), "f%d" % d),
    lambda d: ("", "xme::bind_front(&note, &out, %d)" % d),
    lambda d: ("Counting f%d{&out, %d};" % (d, d), "f%d" % d),
    lambda d: ("const Functor f%d{&out, %d};" % (d, d), "f%d" % d),
    lambda d: ("", "Owner(&out, %d)" % d),
    lambda d: ("", "Moves(&out, %d)" % d),
    lambda d: ("Counting f%d{&out, %d};" % (d, d), "std::ref(f%d)" % d),
    lambda d: ("Owner f%d(&out, %d);" % (d, d), "f%d" % d),
    lambda d: ("", "Counting{&out, %d}" % d),
    lambda d: ("auto f%d = [&out, n = %d]() mutable noexcept { note(&out, n); n = 99; };" % (d, d), "f%d" % d),
]


def scopes(c, u, rng):
    r = c.tlc("Scoped", "INIT Init\nNEXT Next\nCONSTANTS Length = %d Depth = %d Delegates = 3\nINVARIANT OncePerDelegate\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % ((7, 4) if c.thorough else (6, 3)), workers=4)
    if not r.completed:
        raise CheckError("TLC did not complete on Scoped")
    progs = [(e["prog"], e["log"]) for e in r.emits() if not any(i[0] in ("goto", "throw") or i[0] == "open" and i[1] == "unwind" for i in e["prog"])]
    progs.sort(key=lambda p: (len(p[0]), json.dumps(p[0])))
    progs = rng.sample(progs, min(len(progs), 4000 if c.thorough else 600))
    hs = []
    for i, (p, log) in enumerate(progs):
        f = scoped.program(i, p, rng.randrange(100), CALLABLES, "constexpr void p%d([[maybe_unused]] Log& out)").strip()
        hs.append(((f, "static_assert(logs(&p%d, {%s}));" % (i, ",".join(map(str, log)))), [" ".join(map(str, x)) for x in p]))
    for i in range(0, len(hs), 200):
        u.all.append(("ScopedDelegate", "constant_scoped.hpp", "", hs[i:i + 200], []))


def utilities(c, u, rng):
    hs = []
    for w in (8, 16, 32, 64):
        r = c.tlc("Utilities", "INIT Init\nNEXT Next\nCONSTANTS W = %d Dense = %d\nINVARIANTS Laws Emit\nCHECK_DEADLOCK FALSE\n" % (w, 8 if w == 8 else 6 if c.thorough else 4))
        if not r.completed:
            raise CheckError("TLC did not complete on Utilities")
        for e in r.emits():
            if e["op"] == "number":
                hs.append(([w, e["single"], e["sign"]] + items(e["x"]), "a number of %d bits with %s set" % (w, e["x"])))
    rng.shuffle(hs)
    if not c.thorough:
        hs = [h for h in hs if h[0][0] == 8] + [h for h in hs if h[0][0] > 8][:1500]
    u.add("to_unsigned, has_single_bit, sign", "constant_util.hpp", "numbers<0>", [([x for h in hs[i:i + 50] for x in h[0]], [h[1] for h in hs[i:i + 50]]) for i in range(0, len(hs), 50)])
    f = c.tlc("ForwardLike", "INIT Init\nNEXT Next\nINVARIANTS Laws Emit\nCHECK_DEADLOCK FALSE\n")
    r = c.tlc("Uninit", "INIT Init\nNEXT Next\nCONSTANTS K = %d\nINVARIANT AllOrNothing\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (7 if c.thorough else 4))
    if not f.completed or not r.completed:
        raise CheckError("TLC did not complete")
    likes = []
    for e in f.emits():
        x = e["x"]
        k = lambda b: "const " if b else ""
        t = ("const int" if x["likeconst"] else "int") + {"value": "", "lvalue": "&", "rvalue": "&&"}[x["like"]], k(x["argconst"]) + "int" + {"lvalue": "&", "rvalue": "&&"}[x["arg"]]
        likes.append((("//", "static_assert(like<%s, %s>(%d, %d));" % (t + (e["r"]["category"] == "lvalue", e["r"]["const"]))), ["forward_like<%s>(%s)" % t]))
    u.all.append(("forward_like", "constant_util.hpp", "", likes, []))
    cases = sorted({(e["op"], e["ni"], e["no"]) for e in r.emits() if e["f"] == 0 and e["op"] in ("copy", "fill")})
    u.add("construction in memory", "constant_util.hpp", "memory<0>", [([H(op), ni, no], ["%s %d %d" % (op, ni, no)]) for op, ni, no in cases])


def mathematics(c, u, rng):
    def cases(module, consts):
        r = c.tlc(module, "INIT Init\nNEXT Next\nCONSTANTS %s\nINVARIANTS Laws Emit\nCHECK_DEADLOCK FALSE\n" % consts)
        if not r.completed:
            raise CheckError("TLC did not complete on " + module)
        return list(r.emits())
    big = 1 if c.thorough else 0
    jobs = [("vectors of dimension %d" % n, "vectors<%d>" % n, "Vectors", "N = %d Level = 0" % n, 1 if n in (2, 3, 4) or c.thorough else 0.4) for n in (2, 3, 4, 5)]
    shapes = [(x, y) for x in range(1, 6) for y in range(1, 6)] if c.thorough else [(2, 2), (3, 3), (4, 4), (2, 3), (4, 3), (5, 2)]
    jobs += [("matrices of %d columns and %d rows" % s, "matrices<%d, %d>" % s, "Matrices", "C = %d R = %d Ks = {1,2,4} Level = 0" % s, 1 if c.thorough else 0.35) for s in shapes]
    jobs += [("quaternions", "quaternions<0>", "Quaternions", "Level = 0", 1), ("translations and scalings", "transforms<0>", "Transforms", 'Clip = "rh" Level = %d' % big, 1)]
    with cf.ThreadPoolExecutor(6) as ex:
        specs = list(ex.map(lambda j: cases(*j[2:4]), jobs))
    skip = {"distance", "length", "unit"}
    for (what, call, module, _, part), es in zip(jobs, specs):
        if module == "Transforms":
            es = [e for e in es if e["op"] in ("translate", "scale") and e["b"][3] == 1]
        es = [e for e in es if e["op"][0] != "x" and e["op"] not in skip and not (e["op"] in ("neg", "face", "reflect", "sign") and module == "None")]
        by = {}
        for e in es:
            by.setdefault(e["op"], []).append(e)
        es = [e for l in by.values() for e in (l if part == 1 or len(l) < 12 else rng.sample(l, max(12, int(len(l) * part))))]
        rng.shuffle(es)
        ints = lambda e: [H(e["op"]), e["s"], e.get("lo", 0), e.get("hi", 0)] + items(e["a"]) + items(e["b"]) + items(e["r"])
        text = lambda e: "%s s=%d a=%s b=%s" % (e["op"], e["s"], e["a"], e["b"])
        u.add(what, "constant_math.hpp", call, [([x for e in es[i:i + 25] for x in ints(e)], [text(e) for e in es[i:i + 25]]) for i in range(0, len(es), 25)])
        c.log(what, len(es), "cases")


def c34(c):
    only = os.environ.get("VP_CONSTANT")       # for work on this check

    def part(f):
        rng = random.Random(c.seed + 34)
        u = Units(c, rng)
        if not only or f.__name__ in only.split(","):
            f(c, u, rng)
        return u.all
    parts = (arrays, mathematics, utilities, scopes, tuples_, binds, iterators, searches, views, heaps)
    u = Units(c, None)
    with cf.ThreadPoolExecutor(4) as ex:
        for f, us in zip(parts, ex.map(part, parts)):
            c.log(f.__name__, len(us), "units")
            u.all += us
    u.run()
    c.notes["units"] = len(u.all)
    c.assumptions.append("LinkedList, Delegate, AlignedData, SPSCQueue and what calls the functions of <cmath> cannot be used in constant expressions of C++20")
