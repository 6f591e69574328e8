"""C01-C04: the dynamic array (spec/ArrayOps, Array, ArrayTrace)."""
import random
from ..core import *
from ..graph import Graph, replay_scripts
from ..trace import record, validate

NEED_COPY = {"fill", "il", "range", "ranget", "copyctor", "assign", "assignself", "ilassign", "pushl", "pushself",
             "emplself", "pushrange", "pushb", "insl", "insself", "insb", "insrange"}


def model(c, **k):
    d = dict(MaxLen=4, MaxCap=5, MaxRange=2, BLen=2, BCap=3)
    if c.thorough:
        d = dict(MaxLen=5, MaxCap=7, MaxRange=3, BLen=3, BCap=4)
    d.update(k)
    r = c.tlc("Array", """INIT Init
NEXT Next
CONSTANTS %s
VIEW shape
INVARIANT Fits Labels Conserve
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
""" % " ".join("%s = %d" % x for x in d.items()), workers=1)
    if not r.completed:
        raise CheckError("TLC did not complete on Array")
    c.notes["model_constants"] = d
    return list(r.emits())


def scripts_of(graph, walks, first=10):
    """Gives the elements of each walk actual, distinct values."""
    res = []
    for w in walks:
        A, B, nxt = [], [], first
        ls, xs = ["reset"], ["ok"]
        for e in w:
            _, act, _ = graph.edges[e]
            m = {}
            for i, v in enumerate(A):
                m[i + 1] = v
            for i, v in enumerate(B):
                m[101 + i] = v
            args = []
            for v in act["x"]:
                if v > 200:
                    if v not in m:
                        m[v] = nxt
                        nxt = nxt + 1 if nxt < 250 else first
                    v = m[v]
                args.append(v)
            A = [m[v] for v in act["sa"]]
            B = [m[v] for v in act["sb"]]
            f, t = graph.views[graph.edges[e][0]], graph.views[graph.edges[e][2]]
            ls.append(" ".join([act["op"]] + list(map(str, args))))
            xs.append("%d [%s] [%s] | %d %d 0" % (act["r"], ",".join(map(str, A)), ",".join(map(str, B)), t[1], t[3]))
        res.append((ls, xs))
    return res


def no_caps(line):
    return line.strip().split(" |")[0]


def c01(c):
    rng = random.Random(c.seed)
    emits = model(c)
    types = [("int", None), ("string", None), ("unique", NEED_COPY), ("wide", None), ("copy", None)]
    bins = c.build_all([dict(src="array.cpp", name="array", flags=ASAN), dict(src="array.cpp", name="array2", flags=["-O2"])])
    for t, drop in types:
        g = Graph(emits, [0, 0, 0, 0], (lambda a: a["op"] not in drop) if drop else None)
        walks = g.walks(200, rng)
        sc = [(ls, list(map(no_caps, xs))) for ls, xs in scripts_of(g, walks)]
        c.log(t, "edges", len(g.edges), "walks", len(sc))
        replay_scripts(c, sc, bins[0], "Array<%s>" % t, [t], canon=no_caps)
        if t in ("int", "string", "unique"):
            replay_scripts(c, sc, bins[1], "Array<%s> -O2" % t, [t], canon=no_caps)
        if not c.samples:
            c.sample({"element": t, "history": sc[0][0][:12], "expected": sc[0][1][:12]})
    c.notes["operations"] = dict(g.ops)
    # longer histories of larger arrays, recorded and validated
    for t in ("int", "string", "unique") + (("wide", "throw") if c.thorough else ()):
        hs = [random_history(rng, 150, rng.choice([8, 20, 60]), t != "unique") for _ in range(400 if c.thorough else 60)]
        tr = record(c, bins[0], hs, [t])
        validate(c, "ArrayTrace", tf(True, False, False, False), tr, "Array<%s>" % t, [t],
                 keep=lambda e: e.startswith(('["call"', '["ret"', '["reset"', '["quit"')))


# ---- recorded executions ------------------------------------------------
def random_history(rng, n_ops, max_len=10, copyable=True, push_run=False):
    """A random history; only lengths are simulated, to keep the arguments valid."""
    na = ca = nb = 0
    nxt = [10]

    def new(k):
        nxt[0] += k
        return list(range(nxt[0] - k, nxt[0]))
    h = ["reset"]
    ops = ["push", "emplace", "pushin", "pushr", "ins", "insr", "insin", "pop", "erase", "eraser", "clear", "reserve",
           "resize", "set", "def", "cap", "iter", "input", "movector", "massign", "swap", "swapself"]
    if copyable:
        ops += ["fill", "il", "range", "ranget", "copyctor", "assign", "assignself", "ilassign", "pushl", "pushself",
                "emplself", "pushrange", "pushb", "insl", "insself", "insb", "insrange"]
    weight = {o: 1 for o in ops}
    for o in ("push", "ins", "insr", "erase", "eraser", "insself", "insb", "emplace", "insl"):
        if o in weight:
            weight[o] = 4
    names, ws = list(weight), list(weight.values())
    while len(h) < n_ops:
        op = rng.choices(names, ws)[0]
        k = rng.randint(0, 5)
        x = []
        if op in ("def",):
            na = 0
        elif op == "cap":
            x, na = [rng.randint(0, max_len)], 0
        elif op == "fill":
            x, na = [k] + new(1), k
        elif op in ("il", "ilassign"):
            x = new(rng.randint(0, 2)); na = len(x)
        elif op in ("iter", "range", "ranget", "input"):
            x, na = new(k), k
        elif op == "copyctor":
            nb = na
        elif op == "movector":
            nb, na = na, 0
        elif op == "assign":
            na = nb
        elif op == "massign":
            na, nb = nb, 0
        elif op == "swap":
            na, nb = nb, na
        elif op in ("push", "pushl", "emplace"):
            x = new(1); na += 1
        elif op in ("pushself", "emplself"):
            if not na: continue
            x = [rng.randrange(na)]; na += 1
        elif op in ("pushin", "pushr", "pushrange"):
            x = new(k); na += k
        elif op == "pushb":
            na += nb
        elif op in ("ins", "insl"):
            x = [rng.randint(0, na)] + new(1); na += 1
        elif op == "insself":
            if not na: continue
            x = [rng.randint(0, na), rng.randrange(na)]; na += 1
        elif op in ("insr", "insin", "insrange"):
            x = [rng.randint(0, na)] + new(k); na += k
        elif op == "insb":
            f = rng.randint(0, nb); l = rng.randint(f, nb)
            x = [rng.randint(0, na), f, l]; na += l - f
        elif op == "pop":
            if not na: continue
            na -= 1
        elif op == "erase":
            if not na: continue
            x = [rng.randrange(na)]; na -= 1
        elif op == "eraser":
            f = rng.randint(0, na); l = rng.randint(f, na)
            x = [f, l]; na -= l - f
        elif op == "clear":
            na = 0
        elif op == "reserve":
            x = [rng.randint(0, max_len + 4)]
        elif op == "resize":
            x = [rng.randint(0, max_len + 4)]; na = min(na, x[0])
        elif op == "set":
            if not na: continue
            x = [rng.randrange(na)] + new(1)
        h.append(" ".join([op] + list(map(str, x))))
        if na > max_len:
            f = rng.randint(0, max_len // 2)
            h.append("eraser %d %d" % (f, f + na - max_len // 2)); na = max_len // 2
        if nb > max_len:
            h.append("swap"); na, nb = nb, na
            h.append("clear"); na = 0
    if push_run:
        h.append("def")
        h += ["push %d" % (i % 200) for i in range(push_run)]
    return h


CONSTS = "CONSTANTS Values = %s Life = %s Space = %s Faults = %s\n"


def tf(*a):
    return CONSTS % tuple("TRUE" if x else "FALSE" for x in a)


def walk_histories(c, rng, drop=None, limit=None, **k):
    g = Graph(model(c, **k), [0, 0, 0, 0], lambda a: not drop or a["op"] not in drop)
    walks = g.walks(60, rng)
    if limit and len(walks) > limit:
        walks = rng.sample(walks, limit)
    return [ls for ls, _ in scripts_of(g, walks)]


def c02(c):
    rng = random.Random(c.seed)
    b = c.build_all([dict(src="array.cpp", name="array", flags=ASAN)])[0]
    if not b:
        return
    small = dict(MaxLen=3, MaxCap=4, MaxRange=2, BLen=2, BCap=2) if not c.thorough else {}
    for t, drop in (("copy", None), ("move", NEED_COPY), ("throw", None)):
        hs = walk_histories(c, rng, drop, limit=None if t == "copy" or c.thorough else 120, **small)
        n = 300 if c.thorough else 40
        hs += [random_history(rng, 60, rng.choice([6, 12, 24]), t != "move") for _ in range(n)]
        tr = record(c, b, hs, [t])
        validate(c, "ArrayTrace", tf(False, True, False, False), tr, "Array<%s>" % t, [t])
        c.log(t, "histories", len(hs), "events", c.steps)
        c.sample({"element": t, "history": hs[-1][:10]})


def c03(c):
    rng = random.Random(c.seed + 3)
    b = c.build_all([dict(src="array.cpp", name="array", flags=ASAN)])[0]
    if not b:
        return
    small = dict(MaxLen=3, MaxCap=4, MaxRange=2, BLen=2, BCap=2) if not c.thorough else {}
    for t, drop in (("copy", None), ("move", NEED_COPY)):
        hs = walk_histories(c, rng, drop, limit=None if t == "copy" or c.thorough else 60, **small)
        n = 300 if c.thorough else 40
        hs += [random_history(rng, 60, rng.choice([6, 12, 24]), t != "move") for _ in range(n)]
        hs += [random_history(rng, 3, 6, t != "move", k) for k in (40, 150, 1000 if c.thorough else 300)]
        tr = record(c, b, hs, [t])
        validate(c, "ArrayTrace", tf(False, False, True, False), tr, "Array<%s>" % t, [t])
        c.log(t, "histories", len(hs), "events", c.steps)
        c.sample({"element": t, "history": hs[-4][:10]})


def build_shape(n, cap, m, bcap, first=1):
    """Operations that lead to a of n elements and capacity cap, and b of m elements and capacity bcap."""
    ls = []
    if bcap:
        ls.append(" ".join(["iter"] + [str(100 + i) for i in range(m)]))
        if bcap > m:
            ls.append("reserve %d" % bcap)
        ls.append("movector")
    if cap:
        ls.append(" ".join(["iter"] + [str(first + i) for i in range(n)]))
        if cap > n:
            ls.append("reserve %d" % cap)
    return ls


def c04(c):
    """Every operation in every small shape, with the k-th throwing action failing, for every k."""
    rng = random.Random(c.seed + 4)
    b = c.build_all([dict(src="array.cpp", name="array", flags=ASAN)])[0]
    if not b:
        return
    d = dict(MaxLen=3, MaxCap=4, MaxRange=2, BLen=2, BCap=2) if not c.thorough else dict(MaxLen=4, MaxCap=5, MaxRange=3, BLen=2, BCap=3)
    emits = model(c, **d)
    c.notes["fault_points"] = 0
    for t, drop in (("copy", None), ("throw", None), ("move", NEED_COPY)):
        cases, seen = [], set()
        for e in emits:
            n, cap, m, bcap = e["f"]
            op = e["a"]["op"]
            if drop and op in drop:
                continue
            uses_b = op in ("assign", "massign", "swap", "insb", "pushb", "copyctor", "movector")
            if not uses_b and (m, bcap) != (0, 0):
                continue
            if uses_b and (m, bcap) not in ((0, 0), (1, 1), (2, 2)):
                continue
            x = [v if v < 200 else v - 150 for v in e["a"]["x"]]
            k = (n, cap, m, bcap, op, tuple(x))
            if k in seen:
                continue
            seen.add(k)
            cases.append((build_shape(n, cap, m, bcap), " ".join([op] + list(map(str, x)))))
        # how many actions of each operation can fail
        script = []
        for pre, op in cases:
            script += ["reset"] + pre + [op]
        rc, out, err = c.run(b, [t], "\n".join(script + ["end"]) + "\n")
        out = out.splitlines()
        if rc != 0 or len(out) != len(script) + 1:
            record(c, b, [["reset"] + pre + [op] for pre, op in cases], [t])     # reports the crash
            return
        i, hs = 0, []
        for pre, op in cases:
            i += len(pre) + 1
            acts = int(out[i].split()[-1]); i += 1
            for k in range(1, acts + 1):
                after = rng.choice(["push 77", "insr 0 78 79", "clear", "resize 0", "reserve 6", "swap", "iter 80 81", "pop" if False else "push 82"])
                hs.append(["reset"] + pre + ["arm %d" % k, op, after])
        c.notes["fault_points"] += len(hs)
        c.log(t, "cases", len(cases), "fault points", len(hs))
        cap_h = 100000 if c.thorough else 4500
        if len(hs) > cap_h:
            hs = rng.sample(hs, cap_h)
        tr = record(c, b, hs, [t])
        validate(c, "ArrayTrace", tf(False, True, False, True), tr, "Array<%s>" % t, [t])
        c.sample({"element": t, "history": hs[len(hs) // 2]})
