"""C05, C06: the linked list (spec/ListOps, LinkedList, ListTrace)."""
import random
from ..core import *
from ..graph import Graph, replay_scripts
from ..trace import record, validate

NEED_COPY = {"nv", "range", "il", "ilassign", "assignil", "copyctor", "assign", "assignb", "assignself", "assignr",
             "pushfl", "pushself", "insal", "insself", "insarr", "insab"}
DEFAULT = {"string": -997, "unique": -997, "wide": -998}


def model(c, **k):
    d = dict(MaxLen=4, MaxRange=2, BLen=3)
    if c.thorough:
        d = dict(MaxLen=6, MaxRange=3, BLen=5)
    d.update(k)
    r = c.tlc("LinkedList", """INIT Init
NEXT Next
CONSTANTS %s
VIEW shape
INVARIANT OncePerNode
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
""" % " ".join("%s = %d" % x for x in d.items()))
    if not r.completed:
        raise CheckError("TLC did not complete on LinkedList")
    c.notes["model_constants"] = d
    return list(r.emits())


def scripts_of(graph, walks, t="int"):
    res = []
    for w in walks:
        A, B, nxt = [], [], 10
        ls, xs = ["reset"], ["ok"]
        for e in w:
            act = graph.edges[e][1]
            m = {0: DEFAULT.get(t, 0)}
            for i, v in enumerate(A):
                m[i + 1] = v
            for i, v in enumerate(B):
                m[101 + i] = v
            args = []
            for v in act["x"]:
                if v > 200:
                    if v not in m:
                        m[v] = nxt
                        nxt += 1
                    v = m[v]
                args.append(v)

            def lab(v):
                val = m[v - 300 if v > 300 else v]
                o = "a%d" % (v - 1) if 1 <= v <= 100 else "b%d" % (v - 101) if 101 <= v <= 200 else "*"
                return val, "%d@%s" % (val, o)
            la, lb = [lab(v) for v in act["sa"]], [lab(v) for v in act["sb"]]
            A, B = [v for v, _ in la], [v for v, _ in lb]
            ls.append(" ".join([act["op"]] + list(map(str, args))))
            xs.append("%d [%s] [%s]" % (act["r"], ",".join(s for _, s in la), ",".join(s for _, s in lb)))
        res.append((ls, xs))
    return res


def match(x, g):
    if "@" not in x:
        return x == g
    xs, gs = x.replace(" ", ",").split(","), g.replace(" ", ",").split(",")
    if len(xs) != len(gs):
        return False
    for p, q in zip(xs, gs):
        if p == q:
            continue
        if "*" not in p or "@" not in q or p.split("@")[0] != q.split("@")[0]:
            return False
        if p.strip("[]").split("@")[1] != "*" or p.endswith("]") != q.endswith("]"):
            return False
    return True


def canon(line):
    line = line.strip()
    return line[:line.rindex("]") + 1] if "]" in line else line


def c05(c):
    rng = random.Random(c.seed)
    emits = model(c)
    bins = c.build_all([dict(src="linked_list.cpp", name="ll", flags=ASAN), dict(src="linked_list.cpp", name="ll2", flags=["-O2"])])
    for t, drop in (("int", None), ("string", None), ("unique", NEED_COPY), ("wide", None), ("copy", None)):
        g = Graph(emits, [0, 0], (lambda a: a["op"] not in drop) if drop else None)
        sc = scripts_of(g, g.walks(60, rng), t)
        c.log(t, "edges", len(g.edges), "walks", len(sc))
        replay_scripts(c, sc, bins[0], "LinkedList<%s>" % t, [t], canon=canon, match=match)
        if t in ("int", "string"):
            replay_scripts(c, sc, bins[1], "LinkedList<%s> -O2" % t, [t], canon=canon, match=match)
        if not c.samples:
            c.sample({"element": t, "history": sc[0][0][:12], "expected": sc[0][1][:12]})
    c.notes["operations"] = dict(g.ops)
    for t in ("int", "string", "unique") + (("wide", "throw") if c.thorough else ()):
        hs = [random_history(rng, 120, rng.choice([8, 20, 60]), t != "unique", t in ("int", "throw")) for _ in range(400 if c.thorough else 60)]
        tr = record(c, bins[0], hs, [t])
        validate(c, "ListTrace", "CONSTANTS Values = TRUE Life = FALSE Faults = FALSE\n", tr, "LinkedList<%s>" % t, [t],
                 keep=lambda e: e.startswith(('["call"', '["ret"', '["reset"', '["quit"')))


def random_history(rng, n_ops, max_len, copyable=True, default=True):
    na = nb = 0
    nxt = [10]

    def new(k):
        nxt[0] += k
        return list(range(nxt[0] - k, nxt[0]))
    h = ["reset"]
    ops = ["def", "input", "movector", "massign", "pushf", "emplf", "popf", "insa", "empla", "insain", "assignin", "erasea",
           "erasear", "reverse", "clear", "iter", "assigni", "insar"]
    if default:
        ops.append("n")
    if copyable:
        ops += sorted(NEED_COPY)
    weight = {o: 1 for o in ops}
    for o in ("pushf", "insa", "insar", "erasea", "erasear", "insself", "insab", "emplf", "insal", "reverse", "insain"):
        if o in weight:
            weight[o] = 4
    names, ws = list(weight), list(weight.values())
    while len(h) < n_ops:
        op = rng.choices(names, ws)[0]
        k, x = rng.randint(0, 5), []
        if op in ("def", "clear"):
            na = 0
        elif op == "n":
            x, na = [k], k
        elif op == "nv":
            x, na = [k] + new(1), k
        elif op in ("il", "ilassign", "assignil"):
            x = new(rng.randint(0, 2)); na = len(x)
        elif op in ("iter", "range", "input", "assignr", "assigni", "assignin"):
            x, na = new(k), k
        elif op == "copyctor":
            nb = na
        elif op == "movector":
            nb, na = na, 0
        elif op in ("assign", "assignb"):
            na = nb
        elif op == "massign":
            na, nb = nb, 0
        elif op in ("pushf", "pushfl", "emplf"):
            x = new(1); na += 1
        elif op == "pushself":
            if not na: continue
            x = [rng.randrange(na)]; na += 1
        elif op == "popf":
            if not na: continue
            na -= 1
        elif op in ("insa", "insal", "empla"):
            x = [rng.randint(-1, na - 1)] + new(1); na += 1
        elif op == "insself":
            if not na: continue
            x = [rng.randint(-1, na - 1), rng.randrange(na)]; na += 1
        elif op in ("insar", "insain", "insarr"):
            x = [rng.randint(-1, na - 1)] + new(k); na += k
        elif op == "insab":
            x = [rng.randint(-1, na - 1)]; na += nb
        elif op == "erasea":
            if not na: continue
            x = [rng.randint(-1, na - 2)]; na -= 1
        elif op == "erasear":
            p = rng.randint(-1, na - 1); q = rng.randint(p + 1, na)
            x = [p, q]; na -= q - p - 1
        h.append(" ".join([op] + list(map(str, x))))
        if na > max_len:
            h.append("erasear -1 %d" % (na - max_len // 2)); na = max_len // 2
        if nb > max_len:
            h.append("massign"); na = nb; nb = 0
            h.append("clear"); na = 0
    return h


CONSTS = "CONSTANTS Values = FALSE Life = TRUE Faults = TRUE\n"


def c06(c):
    rng = random.Random(c.seed + 6)
    b = c.build_all([dict(src="linked_list.cpp", name="ll", flags=ASAN)])[0]
    if not b:
        return
    emits = model(c, **(dict(MaxLen=3, MaxRange=2, BLen=2) if not c.thorough else dict(MaxLen=4, MaxRange=3, BLen=3)))
    c.notes["fault_points"] = 0
    for t, drop in (("copy", None), ("throw", None), ("move", NEED_COPY)):
        g = Graph(emits, [0, 0], lambda a: not drop or a["op"] not in drop)
        hs = [ls for ls, _ in scripts_of(g, g.walks(60, rng))]
        hs += [random_history(rng, 60, rng.choice([6, 12]), t != "move") for _ in range(300 if c.thorough else 20)]
        # every operation in every small shape with every failing action
        cases, seen = [], set()
        for e in emits:
            n, m = e["f"]
            op = e["a"]["op"]
            if drop and op in drop:
                continue
            x = [v if v < 200 else v - 150 for v in e["a"]["x"]]
            k = (n, m, op, tuple(x))
            if k in seen or (m not in (0, 2) ):
                continue
            if m and op not in ("insab", "assign", "assignb", "massign", "copyctor", "movector"):
                continue
            seen.add(k)
            pre = []
            if m:
                pre += [" ".join(["iter"] + [str(100 + i) for i in range(m)]), "movector"]
            if n:
                pre.append(" ".join(["iter"] + [str(1 + i) for i in range(n)]))
            cases.append((pre, " ".join([op] + list(map(str, x)))))
        script = [l for pre, op in cases for l in ["reset"] + pre + [op]]
        rc, out, err = c.run(b, [t], "\n".join(script + ["end"]) + "\n")
        out = out.splitlines()
        if rc != 0 or len(out) != len(script) + 1:
            record(c, b, [["reset"] + pre + [op] for pre, op in cases], [t])
            if not c.violations:
                raise CheckError("the linked list harness stopped")
            return
        i, fs = 0, []
        for pre, op in cases:
            i += len(pre) + 1
            acts = int(out[i].split()[-1]); i += 1
            for k in range(1, acts + 1):
                fs.append(["reset"] + pre + ["arm %d" % k, op, rng.choice(["pushf 77", "insar -1 78 79", "clear", "reverse", "iter 80 81"])])
        c.notes["fault_points"] += len(fs)
        if len(fs) > 3000 and not c.thorough:
            fs = rng.sample(fs, 3000)
        tr = record(c, b, hs + fs, [t])
        validate(c, "ListTrace", CONSTS, tr, "LinkedList<%s>" % t, [t])
        c.log(t, "histories", len(hs), "fault points", len(fs), "events", c.steps)
        c.sample({"element": t, "history": fs[len(fs) // 2]})
