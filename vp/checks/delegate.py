"""C14, C15: delegates (spec/Delegate, spec/DelegateTrace)."""
import random
import concurrent.futures as cf
from ..core import *
from ..graph import Graph, replay, key
from ..trace import record, validate, merge

SIGS = {"S1": 0, "S2": 1, "S3": 2, "S4": 0, "S5": 3, "S6": 0}


def model(c, s, free, objs, t, n):
    r = c.tlc("Delegate", "INIT Init\nNEXT Next\nCONSTANTS S = %d Free = {%s} Objects = {%s} T = %d N = %d\nVIEW state\nINVARIANT Types\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (
        s, ",".join(map(str, free)), ",".join(map(str, objs)), t, n))
    if not r.completed:
        raise CheckError("TLC did not complete on Delegate")
    return list(r.emits())


def c14(c):
    rng = random.Random(c.seed + 14)
    names = list(SIGS)
    jobs = [dict(src="delegate.cpp", name="dl" + s, flags=ASAN + ["-O1" if i % 2 else "-O0", "-DVP_SIG=" + s, "-DVP_MEMBER=%d" % SIGS[s]]) for i, s in enumerate(names)]
    jobs += [dict(src="delegate.cpp", name="dlo" + s, flags=["-O2", "-DVP_SIG=" + s, "-DVP_MEMBER=%d" % SIGS[s]]) for s in ("S1", "S3")]
    with cf.ThreadPoolExecutor(5) as ex:
        fb = ex.submit(c.build_all, jobs)
        f1 = ex.submit(model, c, 2, [1, 2], list(range(3, 13)), 2 if c.thorough else 1, 1)
        f2 = ex.submit(model, c, 3, [1], [2], 2, 2 if c.thorough else 1)
        f3 = ex.submit(model, c, 2, [1, 2, 13], [3, 6], 2, 1)
        two, three, data = f1.result(), f2.result(), f3.result()
        bins = fb.result()
    c.log("models ready")

    def shower(m, slots):
        def show(a, t):
            return "[" + ",".join(map(str, a["r"])) + "] " + " ".join(
                ("0" if s[0] == 0 else "%d:%d:%d" % (m.get(s[0], s[0]), s[1], s[2])) for s in t + [[0, 0, 0]] * (3 - slots))
        return show

    def enc(m):
        def e(a, f):
            x = list(a["x"])
            if a["op"] == "make":
                x[1] = m.get(x[1], x[1])
            return " ".join([a["op"], a["how"]] + list(map(str, x)))
        return e
    g2, g3, g4 = Graph(two, [[0, 0, 0]] * 2), Graph(three, [[0, 0, 0]] * 3), Graph(data, [[0, 0, 0]] * 2)
    w2, w3, w4 = g2.walks(400, rng), g3.walks(400, rng), g4.walks(400, rng)
    c.notes["edges"] = {"two delegates": len(g2.edges), "three delegates": len(g3.edges), "data members": len(g4.edges)}
    c.sample({"history": [g3.edges[e][1] for e in w3[0][:8]]})
    pairs = [(1, 3), (2, 5), (1, 6), (2, 7), (1, 4), (2, 9), (1, 10), (2, 12), (1, 8)]
    for i, b in enumerate(bins):
        s = (names + ["S1", "S3"])[i]
        what = "Delegate<%s>%s" % (s, " -O2" if i >= len(names) else "")
        if not b:
            continue
        replay(c, g2, w2, b, enc({}), shower({}, 2), what)
        for p in (pairs if c.thorough else pairs[i:i + 1]):
            m = {1: p[0], 2: p[1]}
            replay(c, g3, w3, b, enc(m), shower(m, 3), what)
        if s == "S3":
            replay(c, g4, w4, b, enc({}), shower({}, 2), what)
        c.log(what)


def life_line(a, m):
    """A script line of harness/delegate_life for an action of the model; None if it has none."""
    x, how = a["x"], a["how"]
    op = a["op"]
    if op == "make":
        return "%s %d 1 %d %d" % ({"ctorc": "ctorl"}.get(how, how), x[0], m[x[1]], 9 + x[2] + (2 if m[x[1]] == 1 and x[2] > 2 else 0))
    if op == "null":
        return "%s %d 1 0 0" % ("null" if how.startswith("assign") else "default", x[0])
    if op in ("copy", "move"):
        return "%s%s %d %d 0 0" % (op, how, x[0], x[1])
    if op == "swap":
        return "swap %d %d 0 0" % (x[0], x[1])
    return "call %d 1 0 0" % x[0]


def c15(c):
    rng = random.Random(c.seed + 15)
    with cf.ThreadPoolExecutor(3) as ex:
        fb = ex.submit(c.build_all, [dict(src="delegate_life.cpp", name="dll", flags=ASAN), dict(src="delegate_life.cpp", name="dllo", flags=["-O2"])])
        f1 = ex.submit(model, c, 2, [1], [2, 3, 4, 5, 6, 7], 1, 0)
        f2 = ex.submit(model, c, 3, [1], [2], 2, 0)
        two, three = f1.result(), f2.result()
        bins = fb.result()
    if not all(bins):
        return
    ident = {k: k for k in range(1, 8)}
    g2, g3 = Graph(two, [[0, 0, 0]] * 2), Graph(three, [[0, 0, 0]] * 3)
    scripts = []
    for g, m in [(g2, ident)] + [(g3, {1: 1, 2: k}) for k in ((2, 3, 4, 5, 6, 7) if c.thorough else (2, 3, 7))]:
        for w in g.walks(80, rng):
            scripts.append(["reset"] + [life_line(g.edges[e][1], m) for e in w] + ["destroyall 1 1 0 0"])
    # longer histories over three delegates and all kinds
    for _ in range(1500 if c.thorough else 200):
        h = ["reset"]
        for _ in range(rng.randint(20, 80)):
            op = rng.choice(["ctor", "ctorl", "assign", "assignl", "copyctor", "copyassign", "copyassign", "movector", "moveassign", "swap", "null", "default", "call"])
            i, j = rng.randint(1, 3), rng.randint(1, 3)
            if i == j and op in ("copyctor", "movector", "moveassign"):
                continue
            h.append("%s %d %d %d %d" % (op, i, j, rng.randint(1, 7), rng.randint(10, 12)))
        if rng.random() < .7:
            h.append("destroyall 1 1 0 0")
        scripts.append(h)
    rng.shuffle(scripts)
    c.sample({"history": scripts[0][:14]})
    tr = record(c, bins[0], scripts)
    validate(c, "DelegateTrace", "", tr, "Delegate lifetimes")
    tr = record(c, bins[1], scripts[::3])
    validate(c, "DelegateTrace", "", tr, "Delegate lifetimes -O2")
    # every operation from every pair of held targets, the k-th throwing action failing
    faults = []
    for k1 in range(0, 8):
        for k2 in range(0, 8):
            pre = (["ctor 1 1 %d 10" % k1] if k1 else []) + (["ctorl 2 1 %d 11" % k2] if k2 else [])
            ops = ["copyctor 3 1 0 0", "copyassign 2 1 0 0", "copyassign 1 1 0 0"] + [
                "%s 2 1 %d 12" % (o, k) for o in ("ctor", "ctorl", "assign", "assignl") for k in range(2, 8)]
            ops += ["moveassign 2 1 0 0", "movector 3 1 0 0", "swap 1 2 0 0"]
            for o in ops:
                for n in range(1, 5):
                    faults.append(["reset"] + pre + [o + " %d" % n, "call 1 1 0 0", "call 2 1 0 0", "copyassign 3 1 0 0", "swap 2 3 0 0"]
                                  + (["destroyall 1 1 0 0"] if n % 2 else []))
    if not c.thorough:
        rng.shuffle(faults)
        faults = faults[:4000]
    tr = record(c, bins[0], faults)
    validate(c, "DelegateTrace", "", tr, "Delegate with throwing targets")
    c.notes["fault_histories"] = len(faults)
