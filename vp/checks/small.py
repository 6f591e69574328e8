"""C27: construction in raw memory and destruction (spec/Uninit, UninitTrace)."""
import concurrent.futures as cf
import random
from ..core import *
from ..graph import Graph, replay, replay_scripts
from ..trace import record, validate, merge


def c27(c):
    rng = random.Random(c.seed + 27)
    r = c.tlc("Uninit", "INIT Init\nNEXT Next\nCONSTANTS K = %d\nINVARIANT AllOrNothing\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (7 if c.thorough else 4))
    if not r.completed:
        raise CheckError("TLC did not complete on Uninit")
    cases = {tuple(e[k] for k in ("op", "ni", "no", "f")) for e in r.emits()}
    builds = [dict(src="uninit.cpp", flags=ASAN), dict(src="uninit.cpp", flags=["-O2", "-march=x86-64-v3"]), dict(src="uninit.cpp", cxx="clang++", flags=["-O1", "-g1", "-fsanitize=address"])]
    bins = c.build_all(builds)
    runs, tr = 0, []
    for j, b in enumerate(bins):
        if not b:
            continue
        for t in ("throw", "own", "move"):
            hs = []
            for op, ni, no, f in sorted(cases):
                if op == "copy":
                    for ik in ((3, 4) if t == "move" else (0, 1, 2, 3, 4)):
                        for ok in (0, 1, 2):
                            if t == "move" and ik == 3 and f:
                                continue               # its moves do not throw
                            for form in range(5):
                                if c.thorough or (ik + ok + form + ni + f + j) % 4 == 0:
                                    hs.append(["reset", "copy %d %d %d %d %d %d %d" % (ik, ni, ok, no, form, f, rng.randint(0, 1))])
                elif op == "fill" and t != "move":
                    for ok in (0, 1, 2):
                        for around in (0, 1):
                            hs.append(["reset", "fill %d %d %d %d" % (ok, no, f, around)])
                elif op == "destroy":
                    for kind in (0, 1, 2):
                        for form in range(6):
                            for e in range(4):
                                hs.append(["reset", "destroy %d %d %d %d" % (kind, no, form, e)])
            if not c.thorough and j:
                hs = hs[::3]
            runs += len(hs)
            tr += record(c, b, hs, [t])
    validate(c, "UninitTrace", "", merge(c, tr), "uninitialized memory")
    c.notes["executions"] = runs
    c.sample({"cases": sorted(cases)[:6]})
    c.assumptions.append("only constructions of elements throw; allocators of three kinds")


def c28(c):
    rng = random.Random(c.seed + 28)
    r = c.tlc("AlignedData", "INIT Init\nNEXT Next\nCONSTANTS Slots = 3 Values = %d\nVIEW View\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (3 if c.thorough else 2))
    if not r.completed:
        raise CheckError("TLC did not complete on AlignedData")
    g = Graph(r.emits(), [0, 0, 0])
    ws = g.walks(200, rng)
    san = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    bins = c.build_all([dict(src="aligned.cpp", flags=san), dict(src="aligned.cpp", flags=["-O2", "-march=x86-64-v3"]), dict(src="aligned.cpp", cxx="clang++", flags=san)])
    for i, b in enumerate(bins):
        for t in ("char", "int", "double", "ldouble", "blob3", "blob17", "blob200", "big", "string", "aggregate", "self", "amp", "category"):
            for e in (-1, 0, 2, 4, 5, 7, 12):
                for w in ("stack", "array", "apart", "nested"):
                    if c.thorough or i == 0 or e in (-1, 5, 12):
                        replay(c, g, ws, b, lambda a, f: "%s %d %d" % (a["op"], a["i"], a["v"]), lambda a, x: ",".join(map(str, x)),
                               "AlignedData<%s> with alignment 2^%d in %s, build %d" % (t, e, w, i), [t, e, w])
    c.notes["edges"] = len(g.edges)
    c.sample({"history": [g.edges[e][1] for e in ws[0][:8]]})


BY_WIDTH = {8: ["uc", "sc", "c", "c8", "e8"], 16: ["us", "s", "c16", "eu16"], 32: ["ui", "i", "c32", "wc", "e32"], 64: ["ul", "l", "ull", "ll", "old"], 128: ["u128", "i128"]}
UNSIGNED = {"uc", "c8", "us", "c16", "ui", "c32", "ul", "ull", "u128"}
SIGNED = {"sc", "c", "s", "i", "wc", "l", "ll", "i128"}


def c29(c):
    sets, n = [], 0
    def model(w):
        r = c.tlc("Utilities", "INIT Init\nNEXT Next\nCONSTANTS W = %d Dense = %d\nINVARIANTS Laws Emit\nCHECK_DEADLOCK FALSE\n" % (w, 8 if w <= 8 else 10 if c.thorough else 6))
        if not r.completed:
            raise CheckError("TLC did not complete on Utilities")
        return list(r.emits())
    with cf.ThreadPoolExecutor(5) as ex:
        specs = dict(zip(BY_WIDTH, ex.map(model, BY_WIDTH)))
    f = c.tlc("ForwardLike", "INIT Init\nNEXT Next\nINVARIANTS Laws Emit\nCHECK_DEADLOCK FALSE\n")
    if not f.completed:
        raise CheckError("TLC did not complete on ForwardLike")
    likes = list(f.emits())
    flags = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    # the sanitizer of unsigned overflow, which is well defined, is not asked
    builds = [("gcc", dict(src="utilities.cpp", flags=flags)), ("gnu", dict(src="utilities.cpp", flags=["-O3", "-std=gnu++20"])), ("clang", dict(src="utilities.cpp", cxx="clang++", flags=flags)),
              ("clang gnu", dict(src="utilities.cpp", cxx="clang++", flags=["-O2", "-std=gnu++20", "-funsigned-char"]))]
    bins = c.build_all([d for _, d in builds])
    for (label, d), b in zip(builds, bins):
        sc = []
        for w, es in specs.items():
            for t in BY_WIDTH[w]:
                ls, xs = [], []
                for e in es:
                    if e["op"] == "single runs":
                        if t in ("uc", "us", "c16", "c8"):
                            ls.append("all " + t); xs.append(" ".join("%d..%d=%d" % tuple(r) for r in e["r"]))
                    elif e["op"] == "sign runs":
                        if t in ("sc", "s"):
                            ls.append("all " + t); xs.append(" ".join("%d..%d=%d" % tuple(r) for r in e["r"]))
                    else:
                        x = " ".join(map(str, e["x"]))
                        ls.append("unsigned %s %s" % (t, x)); xs.append(x)
                        if t in ("i128", "u128") and "-std=gnu++20" not in d["flags"]:
                            continue                   # not integral types then
                        if t in UNSIGNED:
                            ls.append("single %s %s" % (t, x)); xs.append(str(e["single"]))
                        if t in SIGNED and not (t == "c" and "-funsigned-char" in d["flags"]):
                            ls.append("sign %s %s" % (t, x)); xs.append(str(e["sign"]))
                sc += [(["reset"] + ls[i:i + 200], ["ok"] + xs[i:i + 200]) for i in range(0, len(ls), 200)]
        ls, xs = ["reset"], ["ok"]
        for k in range(4):
            for e in likes:
                x = e["x"]
                ls.append("like %d %s %d %s %d" % (k, x["like"], x["likeconst"], x["arg"], x["argconst"]))
                xs.append("%s %d" % (e["r"]["category"], e["r"]["const"]))
        for t in "fdl":
            for v in ("inf", "max", "min", "denorm", "one", "eps", "zero"):      # negative, zero and positive numbers of every magnitude
                for sgn in ("", "-"):
                    ls.append("real %s %s%s" % (t, sgn, v))
                    xs.append("0" if v == "zero" else "-1" if sgn else "1")
        sc.append((ls, xs))
        replay_scripts(c, sc, b, "utilities, %s" % label)
        n = sum(len(l) for l, _ in sc)
    c.notes["cases"] = n
    c.sample({"case": specs[8][5]})


def c35(c):
    rng = random.Random(c.seed + 35)
    k = dict(MaxLen=4, Arenas=3) if c.thorough else dict(MaxLen=3, Arenas=3)
    r = c.tlc("Allocators", "INIT Init\nNEXT Next\nCONSTANTS %s\nVIEW View\nINVARIANT Held\nPROPERTIES Kept Apart\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % " ".join("%s = %d" % x for x in k.items()))
    if not r.completed:
        raise CheckError("TLC did not complete on Allocators")
    g = Graph(r.emits(), [[0, 0], [0, 0]])
    san = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    bins = c.build_all([dict(src="allocators.cpp", flags=san), dict(src="allocators.cpp", flags=["-O2"]), dict(src="allocators.cpp", cxx="clang++", flags=san)])
    for i, b in enumerate(bins):
        for t in ("int", "plain", "counted", "own"):
            def expect(a, x, hooks=t in ("int", "counted")):
                (a1, a2), (n1, n2) = x
                w = lambda a, n: "%d %s" % (n, a if n else "-")
                live = [sum(n for a, n in ((a1, n1), (a2, n2)) if a == k) for k in range(3)]
                return "%s %s |%s" % (w(a1, n1), w(a2, n2), " " + " ".join(map(str, live)) if hooks else "")
            ws = g.walks(200, rng)
            replay(c, g, ws, b, lambda a, f: " ".join(map(str, [a["op"], a["i"]] + a["x"])), expect, "Array<%s> with arenas, build %d" % (t, i), [t])
    c.notes["edges"] = len(g.edges)
    c.sample({"history": [g.edges[e][1] for e in ws[0][:10]]})
