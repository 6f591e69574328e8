"""C25, C26: environment variables and shared libraries (spec/Environment, SharedLibrary, SharedTrace)."""
import random
from ..core import *
from ..graph import Graph, replay
from ..trace import record, validate


def hx(s):
    return s.encode().hex() or "-"


def c25(c):
    rng = random.Random(c.seed + 25)
    sets = [(["A", "AB", "A_B"], ["v", "va=l ue", "AB", "x" * 300]),
            (["FOREIGN2", "FOREIG", "foreign"], ["=", " ", "v\tw\n", "0"]),
            (["n" * 255, "n" * 254, "\u00e9\u4e16"], ["\u00e9=\u4e16", "y" * 20000 if c.thorough else "y" * 5000, "1"])]
    nv = 3 if not c.thorough else 4
    r = c.tlc("Environment", "INIT Init\nNEXT Next\nCONSTANTS Names = 3 Values = %d\nVIEW View\nACTION_CONSTRAINT Emit\nPROPERTY LastWriteWins\nCHECK_DEADLOCK FALSE\n" % nv)
    if not r.completed:
        raise CheckError("TLC did not complete on Environment")
    emits = list(r.emits())
    bins = c.build_all([dict(src="environment.cpp", flags=ASAN), dict(src="environment.cpp", flags=["-O2"]), dict(src="environment.cpp", cxx="clang++", flags=["-O2", "-g1", "-fsanitize=address"])])
    for names, values in sets:
        keep = (lambda a: a["v"] <= len(values))
        g = Graph(emits, [0, 0, 0], keep)
        ws = g.walks(300, rng)
        n = [0]

        def enc(a, f):
            n[0] += 1
            mode = n[0] % 16
            if a["op"] == "get":
                return "get %d %s" % (mode, hx(names[a["n"] - 1]))
            return "set %d %s %s" % (mode, hx(names[a["n"] - 1]), hx(values[a["v"] - 1]) if a["v"] else "-")

        def expect(a, t):
            env = sorted([hx("FOREIGN=f=1")] + [hx(names[i] + "=" + values[v - 1]) for i, v in enumerate(t) if v])
            return " ".join(["ok" if a["op"] == "set" else hx(values[a["v"] - 1]) if a["v"] else "none"] + env)
        for i, b in enumerate(bins):
            replay(c, g, ws, b, enc, expect, "environment variables, build %d" % i)
        if not c.samples:
            c.sample({"names": names, "values": [v[:20] for v in values], "history": [g.edges[e][1] for e in ws[0][:8]]})
    c.notes["edges"] = len(g.edges)


def c26(c):
    rng = random.Random(c.seed + 26)
    r = c.tlc("SharedLibrary", "INIT Init\nNEXT Next\nCONSTANTS Slots = 3 Libs = %d Handles = 3\nVIEW View\nACTION_CONSTRAINT Emit\nINVARIANTS OwnedOnce LiveIffOwned\nCHECK_DEADLOCK FALSE\n" % (3 if c.thorough else 2))
    if not r.completed:
        raise CheckError("TLC did not complete on SharedLibrary")
    emits = list(r.emits())
    # after a moving assignment the second object is closed explicitly, so that histories agree whichever way its library went
    g = Graph(emits, [-2, -2, -2], lambda a: a["op"] != "start")
    hs = []
    for w in g.walks(60, rng):
        h = ["reset"]
        for e in w:
            f, a, t = g.edges[e]
            h.append("%s %d %d %d" % (a["op"], a["s"], a["t"], a["k"]))
        hs.append(h)
    for _ in range(2000 if c.thorough else 150):                       # long random histories
        own, h = [-1] * 4, ["reset"]
        for _ in range(rng.choice([20, 60, 200])):
            s, t, k = rng.randint(1, 3), rng.randint(1, 3), rng.randint(0, 3)
            if own[s] < 0:
                op = rng.choice(["new", "newopen", "newopen"] + (["movector"] * 2 if own[t] >= 0 else []))
            else:
                op = rng.choice(["open", "open", "close", "destroy", "sym", "sym"] + (["massign", "massign", "swap"] if own[t] >= 0 else []))
            if op == "sym":
                if own[s] != 1:
                    continue
                k = rng.randint(0, 2)
            h.append("%s %d %d %d" % (op, s, t, k))
            if op in ("open", "newopen"):
                own[s] = 1 if k else 0
            elif op in ("new", "close"):
                own[s] = 0
            elif op == "destroy":
                own[s] = -1
            elif op == "movector":
                own[s], own[t] = own[t], 0
            elif op == "swap":
                own[s], own[t] = own[t], own[s]
            elif op == "massign" and s != t:
                own[s] = own[t]
                own[t] = 2                                             # unknown: open or closed
                h.append("close %d 0 0" % t)
                own[t] = 0
        hs.append(h)
    hs = [settle(h) for h in hs]
    bins = c.build_all([dict(src="shared_library.cpp", name="sl", flags=["-g1", "-O0"]), dict(src="shared_library.cpp", name="sl2", cxx="clang++", flags=["-O2"]), dict(src="shared_library.cpp", name="sl3", flags=["-g1", "-O1", "-DVP_APPLE"])])
    for i, b in enumerate(bins):
        if b:
            tr = record(c, b, hs)
            validate(c, "SharedTrace", "", tr, "SharedLibrary, build %d" % i)
    c.notes["edges"] = len(g.edges)
    c.sample({"history": hs[0][:10]})
    c.assumptions.append("every successful dlopen gives a handle of its own; looking symbols up in a closed object is outside the contract")


def settle(h):
    """Drops lookups in objects whose library may have gone the other way in a moving assignment; `swap` and later calls are fine either way."""
    sure, res = [True] * 4, []
    for l in h:
        op, *x = l.split()
        x = list(map(int, x))
        if op == "reset":
            sure = [True] * 4
        elif op == "sym":
            if not sure[x[0]]:
                continue
        elif op in ("open", "newopen", "new", "close", "destroy"):
            sure[x[0]] = True
        elif op == "movector":
            sure[x[0]], sure[x[1]] = sure[x[1]], True
        elif op == "swap":
            sure[x[0]], sure[x[1]] = sure[x[1]], sure[x[0]]
        elif op == "massign" and x[0] != x[1]:
            sure[x[0]], sure[x[1]] = sure[x[1]], False
        res.append(l)
    return res
