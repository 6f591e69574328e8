"""C07: the heap (spec/Heap, HeapTrace)."""
import random
from ..core import *
from ..graph import Graph
from ..trace import record, validate

KINDS = ["less", "greater", "mod", "vector", "owner", "ownerdesc", "text"]


def key_of(kind, rank, rng):
    if kind in ("greater", "ownerdesc"):
        return -rank
    if kind == "mod":
        return rank % 3 + 3 * rng.randint(0, 9)
    return rank % 26 if kind == "text" else rank


def c07(c):
    rng = random.Random(c.seed + 7)
    b = c.build_all([dict(src="heap.cpp", name="heap", flags=ASAN)])[0]
    n, ranks = (7, "{0, 1, 2}") if not c.thorough else (7, "{0, 1, 2, 3}")
    r = c.tlc("Heap", """SPECIFICATION Spec
CONSTANTS MaxLen = %d Ranks = %s
VIEW View
INVARIANT Ordered FrontGreatest
PROPERTY Conserves
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
""" % (n, ranks))
    if not r.completed:
        raise CheckError("TLC did not complete on Heap")
    if not b:
        return
    g = Graph(r.emits(), [])
    c.notes["model_constants"] = {"MaxLen": n, "Ranks": ranks}
    walks = g.walks(80, rng)
    c.log("layouts", len(g.views), "edges", len(g.edges), "walks", len(walks))
    for kind in KINDS:
        copy = not kind.startswith("owner")
        hs, nid = [], 0
        # every transition of the model
        for w in walks:
            h, size = ["reset"], 0
            for e in w:
                a = g.edges[e][1]
                if a["op"] == "push":
                    nid += 1
                    size += 1
                    h.append("%s %d:%d" % (rng.choice(["push", "emplace"] + (["pushl"] if copy else [])), key_of(kind, a["x"], rng), nid))
                else:
                    h.append("pop")
                    size -= 1
            hs.append(h + ["pop"] * size)
        # longer ones, with construction, copies, moves and a complete drain
        for _ in range(200 if c.thorough else 30):
            h, na, nb = ["reset"], 0, 0
            span = rng.choice([2, 5, 20, 1000])

            def new(k):
                nonlocal nid
                nid += k
                return " ".join("%d:%d" % (key_of(kind, rng.randint(0, span), rng), nid - k + 1 + i) for i in range(k))
            for _ in range(rng.randint(20, 100)):
                op = rng.choice(["push"] * 8 + ["pop"] * 6 + ["emplace", "iter", "input", "movector", "massign", "swap"]
                                + (["pushl", "list", "range", "urange", "copyctor", "assign"] if copy else []))
                x = ""
                if op in ("push", "pushl", "emplace"):
                    x = " " + new(1); na += 1
                elif op == "pop":
                    if not na:
                        continue
                    na -= 1
                elif op in ("iter", "input", "list", "range", "urange"):
                    na = rng.randint(0, 40); x = " " + new(na) if na else ""
                elif op == "copyctor":
                    nb = na
                elif op == "movector":
                    nb, na = na, 0
                elif op == "assign":
                    na = nb
                elif op == "massign":
                    na, nb = nb, 0
                elif op == "swap":
                    na, nb = nb, na
                h.append(op + x)
            hs.append(h + ["pop"] * na)
        tr = record(c, b, hs, [kind])
        validate(c, "HeapTrace", "", tr, "Heap<%s>" % kind, [kind])
        c.log(kind, "histories", len(hs), "events", c.steps)
        c.sample({"kind": kind, "history": hs[-1][:10]})
