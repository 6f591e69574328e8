"""C13: pairs and tuples (spec/Tuple)."""
import random
import concurrent.futures as cf
from ..core import *
from ..graph import Graph, replay, key

KINDS = [("Pair<A0,A2>", 2, 1), ("Tuple<A0,A2>", 2, 1), ("Pair<M1,M1>", 2, 0), ("Tuple<Nest<A0>,A1>", 2, 1), ("Pair<Nest<A2>,Plain>", 2, 1),
         ("Tuple<A0,A1,A2>", 3, 1), ("Tuple<M0,M1,M2>", 3, 0), ("Tuple<A2>", 1, 1), ("Tuple<A1,A0,A1,A0>", 4, 1), ("Tuple<A0,A1,A0,A2,A1>", 5, 1)]
COPIES = {("assign", None), ("self", None), ("conv", "copy"), ("conv", "std"), ("conv", "aggregate"), ("tie", None)}


def uses_copy(a):
    return (a["op"], a["how"]) in COPIES or (a["op"], None) in COPIES or (a["op"] == "cat" and a["how"] not in ("A B", "A", "none", "e A e B", "stdB A"))


def c13(c):
    rng = random.Random(c.seed + 13)
    kinds = KINDS + ([("Tuple<A2,A1,A0,A1,A2,A0>", 6, 1)] if c.thorough else [])
    flags = lambda k: ["-DVP_TUPLE=xme::" + k[0], "-DVP_K=%d" % k[1]]
    jobs = [dict(src="tuple.cpp", name="tuple%d" % i, flags=ASAN + ["-O1" if i % 2 else "-O0"] + flags(k)) for i, k in enumerate(kinds)]
    # the other supported compiler, and the variant of the code for compilers with explicit object parameters
    other = [KINDS[0], KINDS[6], KINDS[2]]
    jobs += [dict(src="tuple.cpp", name="tuplec", cxx="clang++", flags=["-O1", "-Wno-everything"] + std + flags(k))
             for k, std in zip(other, ([], ["-std=c++2b", "-D__cpp_explicit_this_parameter=202110L"], ["-std=c++2b", "-D__cpp_explicit_this_parameter=202110L"]))]
    kinds = kinds + [(k[0] + " clang", k[1], k[2]) for k in other]

    def spec(k):
        r = c.tlc("Tuple", "INIT Init\nNEXT Next\nCONSTANTS K = %d D = %d\nVIEW state\nINVARIANT Types\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (
            k, {1: 4, 2: 4 if c.thorough else 3, 3: 2, 4: 1, 5: 1, 6: 1}[k]))
        if not r.completed:
            raise CheckError("TLC did not complete on Tuple")
        return list(r.emits())
    ks = sorted({k[1] for k in kinds})
    with cf.ThreadPoolExecutor(5) as ex:
        fb = ex.submit(c.build_all, jobs)
        specs = dict(zip(ks, ex.map(spec, ks)))
        bins = fb.result()

    def show(v):
        return "[" + ",".join(map(str, v)) + "]"
    for (t, k, copy), b in zip(kinds, bins):
        if not b:
            continue
        def keep(a):
            if not copy and uses_copy(a):
                return False
            return True
        g = Graph(specs[k], [[0] * k, [0] * k], keep)
        ws = g.walks(400, rng)
        replay(c, g, ws, b, lambda a, f: " ".join([a["op"], a["how"].replace(" ", "_")] + list(map(str, a["x"]))),
               lambda a, s: "%s %s %s" % (show(a["r"]), show(s[0]), show(s[1])), t)
        c.log(t, "edges", len(g.edges), "walks", len(ws))
        c.notes.setdefault("edges", {})[t] = len(g.edges)
        if not c.samples:
            c.sample({"type": t, "history": [g.edges[e][1] for e in ws[0][:6]]})
