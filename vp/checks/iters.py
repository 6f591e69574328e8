"""C20: iterators and iterator adaptors (spec/Iter)."""
import random
import concurrent.futures as cf
from ..core import *
from ..graph import Graph, replay

CAT = {"classic": 3, "pointer": 3, "vector": 3, "deque": 3, "Array": 3, "list": 2, "forward_list": 1, "LinkedList": 1}


def pairs():
    """name, part, category, directions of x and y, conversions, comparable, writable, ordered"""
    for w in ("Array", "LinkedList"):
        yield w, 0, CAT[w], 0, 0, "xy", 1, "xy", CAT[w] == 3
        yield w + " const", 0, CAT[w], 0, 0, "x", 1, "x", CAT[w] == 3
        yield "const %s const" % w, 0, CAT[w], 0, 0, "xy", 1, "", CAT[w] == 3
    for w, part in (("pointer", 1), ("classic", 1), ("vector", 1), ("deque", 1), ("list", 2), ("forward_list", 2), ("Array", 2), ("LinkedList", 2)):
        yield "const " + w, part, CAT[w], 0, 0, "xy", 1, "", CAT[w] == 3
        yield "const base " + w, part, CAT[w], 0, 0, "y", 1, "y", CAT[w] == 3
        yield "const const " + w, part, CAT[w], 0, 0, "x", 1, "", CAT[w] == 3
    for w, part in (("pointer", 3), ("vector", 3), ("deque", 4), ("list", 4), ("Array", 4)):
        o = CAT[w] == 3
        yield "reverse " + w, part, CAT[w], 1, 1, "xy", 1, "xy", o
        yield "reverse base " + w, part, CAT[w], 1, 0, "y", 0, "xy", o
        yield "reverse const " + w, part, CAT[w], 1, 1, "x", 1, "x", o
        yield "reverse adapted " + w, part, CAT[w], 1, 1, "x", 1, "x", o
        yield "const reverse " + w, part, CAT[w], 1, 1, "y", 1, "y", o


def slots(s):
    return "{%s}" % ", ".join('"%s"' % x for x in s)


def c20(c):
    rng = random.Random(c.seed + 20)
    ns = [0, 1, 2, 4, 5] if c.thorough else [0, 1, 3]
    ps = list(pairs())
    jobs = [dict(src="iter.cpp", name="iter%d" % k, flags=ASAN + ["-w", "-DVP_PART=%d" % k]) for k in range(6)]
    jobs += [dict(src="iter.cpp", name="iterc%d" % k, cxx="clang++", flags=["-O1", "-g1", "-w", "-fsanitize=address", "-DVP_PART=%d" % k]) for k in ((0, 2, 3) if not c.thorough else range(6))]
    shapes = sorted({p[2:] for p in ps})

    def spec(s):
        cat, rx, ry, conv, cmp, wr, o = s
        b = lambda x: "TRUE" if x else "FALSE"
        r = c.tlc("Iter", "INIT Init\nNEXT Next\nCONSTANTS Ns = {%s} Cat = %d RevX = %s RevY = %s Conv = %s Cmp = %s Wr = %s Ordered = %s\nVIEW View\nINVARIANTS TypeOK Laws\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (
            ",".join(map(str, ns)), cat, b(rx), b(ry), slots(conv), b(cmp), slots(wr), b(o)))
        if not r.completed:
            raise CheckError("TLC did not complete on Iter")
        return list(r.emits())
    with cf.ThreadPoolExecutor(5) as ex:
        fb = ex.submit(c.build_all, jobs)
        specs = dict(zip(shapes, ex.map(spec, shapes)))
        bins = fb.result()

    def enc(a, f):
        if a["op"] == "seq":
            return "seq %d" % a["k"]
        k = a["k"]
        if a["op"] == "i[k]=":
            n, p, w = f
            return "i[k]= %s %d %d" % (a["s"], k, a["r"])
        return "%s %s %d" % (a["op"].replace(" ", ""), a["s"], k)

    def expect(a, t):
        op, r = a["op"], a["r"]
        if op in ("seq", "*i=", "i->=", "i[k]="):
            return "ok"
        if op == "compare":
            return "".join("1" if x else "0" for x in r)
        if op.startswith("walk"):
            return "[" + "".join(" %d" % x for x in r) + " ]"
        return str(r)

    def one(name, bin, emits, n, keep=None):
        start = [n, {"x": 0, "y": 0}, []]
        es = [{"f": "start", "a": {"op": "seq", "k": n, "r": 0, "s": ""}, "t": start}] + [e for e in emits if e["f"][0] == n]
        g = Graph(es, "start", keep)
        ws = g.walks(400, rng)
        replay(c, g, ws, bin, enc, expect, "%s, %d elements" % (name, n), [name], shards=4,
               match=(lambda x, g: len(x) == len(g) and all(i == j or j == "?" for i, j in zip(x, g))) if name.endswith("base classic") or name == "const const classic" else None)
        return len(g.edges), ws, g
    todo = []
    for name, part, *s in ps:
        if c.importing and (name.startswith("reverse adapted") or name.startswith("const reverse")):
            continue                           # the modules do not offer ConstIterator
        skip = lambda a, name=name: not (a["op"] == "distance" and (name == "Array const" and a["s"] == "x" or name in ("const const Array", "const const classic"))
                                       or name.endswith("classic") and a["op"] == "three-way")
        for b in [bins[part]] + [x for j, x in zip(jobs[6:], bins[6:]) if j["name"] == "iterc%d" % part]:
            if b:
                todo += [(name, b, specs[tuple(s)], n, skip) for n in ns]
    walk = specs[next(tuple(p[2:]) for p in ps if p[0] == "const pointer")]
    rwalk = specs[next(tuple(p[2:]) for p in ps if p[0] == "reverse list")]
    if bins[5]:
        for name in ("single-pass", "computed", "vector<bool>"):
            keep = lambda a, name=name: a["op"] in ("seq", "walk") + (("walk back",) if name != "single-pass" else ())
            todo += [(name, bins[5], walk, n, keep) for n in ns]
    with cf.ThreadPoolExecutor(6) as ex:
        res = list(ex.map(lambda t: one(*t), todo))
    c.notes["edges"] = sum(r[0] for r in res)
    c.log(len(ps), "pairs of iterators, edges", c.notes["edges"])
    name, ws, g = todo[0][0], res[2][1], res[2][2]
    c.sample({"pair": name, "history": [g.edges[e][1] for e in ws[0][:8]]})
