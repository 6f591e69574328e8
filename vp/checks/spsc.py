"""C08-C11: the single-producer single-consumer queue (spec/SPSC, SpscQueue, SpscTrace, SpscLife)."""
import random
from concurrent.futures import ThreadPoolExecutor
from ..core import *
from ..graph import Graph, replay_scripts
from ..trace import merge, record, validate

ORD = ("WRel", "WAcq", "RRel", "RAcq")


def design(c, n, pushes, takes, weak=None):
    o = {k: "TRUE" for k in ORD}
    if weak:
        o[weak] = "FALSE"
    props = "INVARIANT Fifo NoRace RefusesOnlyFull Bounded Holds AvailSound SpaceSound\n" if not weak else "INVARIANT NoRace\n"
    r = c.tlc("SPSC", "INIT Init\nNEXT Next\n%sCHECK_DEADLOCK FALSE\nCONSTANTS N = %d Pushes = %d Takes = %d %s\n" % (
        props, n, pushes, takes, " ".join("%s = %s" % x for x in o.items())), ok_rc=None, workers=2, count=not weak)
    if weak:
        if "Invariant NoRace is violated" not in r.out:
            raise CheckError("the model does not notice the weaker order " + weak)
    elif not r.completed:
        raise CheckError("the design of the queue does not hold in the model:\n" + r.out[-2000:])
    return r


def designs(c):
    """The design holds under release/acquire memory, and needs each of its four orders."""
    jobs = [(1, 3, 3), (2, 4, 4), (4, 5, 5)] + ([(2, 6, 7), (4, 7, 7), (8, 9, 4)] if c.thorough else [])
    jobs += [(2, 4, 4, w) for w in ORD]
    with ThreadPoolExecutor(max_workers=4) as ex:
        list(ex.map(lambda j: design(c, *j), jobs))
    c.notes["design_instances"] = [str(j) for j in jobs]


MM = ["-O1", "-fsanitize=thread"]


def mm_jobs():
    # asserts in the queue synchronise too: without them (as released) only its own accesses do
    return [dict(src="spsc_mm.cpp", name="spsc_mm", flags=MM + x, objs=[("mm.cpp", ["-O1"])], link=["-O1"]) for x in (["-DNDEBUG"], [])]


# prologue, producer, consumer, epilogue
PROGRAMS = [
    ("_", "ppp", "ccc", "d"),
    ("_", "plp", "oco", "d"),
    ("_", "WW", "bb", "d"),
    ("pc", "pWp", "rcb", "d"),
    ("ppcc", "ppl", "cccc", "dwr"),
    ("pcpcpc", "WpW", "cbc", "dwr"),
    ("pp", "epl", "ccc", "drw"),
    ("ppp", "ppp", "ooc", "d"),
    ("ppppcccc", "Wpw", "bro", "d"),
    ("p", "wpwp", "rcrc", "wrd"),
    ("W", "pwpw", "ccr", "drwW"),
    ("pc", "W", "d", "wr"),
]
QUEUES = ["s2 E", "s4 E", "d2 E", "d4 E", "s1 E", "d4 u", "s2 u", "d8 E", "s8 E", "s4 u"]


def concurrent(c, bins, consts, what, rng):
    if None in bins:
        return
    scripts = []
    limit, randoms = (20000, 4000) if c.thorough else (700, 150)
    for q in QUEUES:
        for i, (pro, prod, cons, epi) in enumerate(PROGRAMS):
            if q.startswith("s1") and i > 3:
                continue
            if not c.thorough and q[1] == "8" and i % 3:
                continue
            scripts.append(["case %s %s %s %s %s %d %d %d %d %d" % (q, pro, prod, cons, epi, limit, 3 if c.thorough else 2, 2 if c.thorough else 1,
                                                                   randoms, rng.randint(1, 10 ** 6))])
    for _ in range(120 if c.thorough else 16):           # random programs
        q = rng.choice(QUEUES)
        pro = "".join(rng.choice("ppcW") for _ in range(rng.randint(1, 6)))
        prod = "".join(rng.choice("pppleWw") for _ in range(rng.randint(3, 9)))
        cons = "".join(rng.choice("ccccobrd") for _ in range(rng.randint(3, 9)))
        scripts.append(["case %s %s %s %s dwr 0 0 0 %d %d" % (q, pro, prod, cons, 3000 if c.thorough else 250, rng.randint(1, 10 ** 6))])
    rng.shuffle(scripts)
    tr = record(c, bins[0], scripts, [], timeout=700 if c.thorough else 200)
    tr += record(c, bins[1], scripts[::4], [], timeout=700 if c.thorough else 200)
    runs = distinct = full = 0
    for _, _, out in tr:
        for line in out.splitlines():
            if line[:1].isdigit():
                r, d, e = map(int, line.split())
                runs += r; distinct += d; full += e
    c.log("programs", len(scripts), "executions", runs, "distinct", distinct, "exhausted", full)
    c.notes["programs"], c.notes["executions"], c.notes["distinct_executions"], c.notes["programs_exhausted"] = len(scripts), runs, distinct, full
    c.sample({"case": scripts[0][0], "meaning": "queue element prologue producer consumer epilogue limit preemptions stale randoms seed"})
    validate(c, "SpscTrace", consts, merge(c, tr), what)


def sequential(c, kinds, caps, rng):
    b = c.build_all([dict(src="spsc.cpp", name="spsc", flags=ASAN)])[0]
    if not b:
        return
    jobs = []
    for n in caps:
        r = c.tlc("SpscQueue", "INIT Init\nNEXT Next\nCONSTANTS N = %d\nVIEW state\nINVARIANT Bounded InOrder AddUp\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % n)
        if not r.completed:
            raise CheckError("TLC did not complete on SpscQueue")
        g = Graph(r.emits(), [[], 0])
        sc = []
        for w in g.walks(400, rng):
            ls, xs = ["reset"], ["ok"]
            for e in w:
                a = g.edges[e][1]
                ls.append("%s %d" % (a["op"], a["x"] + 1))
                xs.append("%d %d %d" % (a["r"] + (1 if a["op"] in ("consume", "peekpop") else 0), a["rav"], a["wav"]))
            sc.append((ls, xs))
        for t in kinds:
            for s in ("s", "d"):
                jobs.append((sc, t, "%s%d" % (s, n)))
    for sc, t, q in jobs:
        replay_scripts(c, sc, b, "SPSCQueue<%s> %s" % (t, q), [t, q], canon=lambda x: x.strip().rsplit(" ", 1)[0] if x.count(" ") >= 3 else x.strip())
    c.notes["sequential"] = ["%s %s" % (t, q) for _, t, q in jobs]


def run(c, consts, kinds, caps):
    rng = random.Random(c.seed + int(c.prop[1:]))
    designs(c)
    bins = c.build_all(mm_jobs())
    concurrent(c, bins, consts, "SPSCQueue under the memory model", rng)
    if kinds:
        sequential(c, kinds, caps, rng)
    c.assumptions += ["C++ release/acquire semantics as modelled in harness/mm.cpp and SpscTrace.tla", "exactly one producer and one consumer thread"]


def c08(c):
    run(c, "CONSTANTS Fifo = TRUE Race = FALSE Avail = FALSE\n", ["int", "byte", "string", "unique", "wide", "copy"], [1, 2, 4, 8] + ([16, 64] if c.thorough else []))


def c09(c):
    run(c, "CONSTANTS Fifo = FALSE Race = TRUE Avail = FALSE\n", [], [])


def c10(c):
    run(c, "CONSTANTS Fifo = FALSE Race = FALSE Avail = TRUE\n", ["int"], [1, 2, 4, 8, 16] + ([64] if c.thorough else []))


def c11(c):
    rng = random.Random(c.seed + 11)
    b = c.build_all([dict(src="spsc.cpp", name="spsc", flags=ASAN)])[0]
    if not b:
        return
    c.notes["fault_points"] = 0
    jobs = []
    for n in [1, 2, 4, 8]:
        r = c.tlc("SpscQueue", "INIT Init\nNEXT Next\nCONSTANTS N = %d\nVIEW state\nINVARIANT Bounded InOrder AddUp\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % n)
        g = Graph(r.emits(), [[], 0])
        for t in ("copy", "throw", "move"):
            hs = []
            for w in g.walks(120, rng):
                hs.append(["reset", "new"] + ["%s %d" % (g.edges[e][1]["op"], g.edges[e][1]["x"] + 1) for e in w] + ["delete"])
            # destruction at every fill level and position of the ring, and every fault point of every operation there
            for pos in range(n):
                for fill in range(n):
                    pre = ["reset", "new"]
                    for i in range(pos if n > 1 else 0):
                        pre += ["push %d" % i, "pop"]
                    pre += ["push %d" % (10 + i) for i in range(fill)]
                    hs.append(pre + ["delete"])
                    for op in ["push 50", "pushl 51", "emplace 52"] + (["consume"] if fill else []):
                        for k in (1, 2):
                            hs.append(pre + ["arm %d" % k, op] + rng.choice([["delete"], ["push 60", "delete"], ["push 61", "consume", "delete"]]))
                            c.notes["fault_points"] += 1
            hs.append(["reset", "arm 1", "new"])
            if t != "copy":
                hs += [random_history(rng, n) for _ in range(400 if c.thorough else 20)]
            for q in ("s%d" % n, "d%d" % n):
                qs = [h for h in hs if not (q[0] == "s" and "arm 1" in h[:2])]
                jobs.append((qs, t, q))
    with ThreadPoolExecutor(max_workers=8) as ex:
        tr = [x for r in ex.map(lambda j: record(c, b, j[0], [j[1], j[2]], 1 if j[2][1] != "8" else 4), jobs) for x in r]
    validate(c, "SpscLife", "", merge(c, tr), "SPSCQueue")
    c.log("events", c.steps)
    c.sample({"history": hs[len(hs) // 2]})
    if c.thorough:
        sequential(c, ["copy", "move", "throw"], [16, 64], rng)


def random_history(rng, n):
    h = ["reset", "new"]
    for i in range(rng.randint(20, 120)):
        if rng.random() < .15:
            h.append("arm %d" % rng.randint(1, 3))
        op = rng.choice(["push", "pushl", "emplace", "push", "pop", "consume", "peekpop"])
        h.append("%s %d" % (op, i + 1) if op in ("push", "pushl", "emplace") else op)
    return h + ["delete"]
