"""C21-C24: vectors, matrices, transforms, quaternions (spec/Vectors, Matrices, Transforms, Quaternions)."""
import concurrent.futures as cf
import re
from ..core import *
from ..graph import replay_scripts

GCC = ASAN + ["-O1"]
CLANG = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=float-cast-overflow", "-fno-sanitize-recover=all"]
O3 = ["-O3", "-march=x86-64-v3", "-DXME_SIMD_ENABLE_AVX2"]


def case_line(e):
    return " ".join(map(str, [e["op"], e["lo"], e["hi"], e["d"], e["s"], len(e["a"])] + e["a"] + [len(e["b"])] + e["b"]))


EXOTIC = {7001: "inf", 7002: "-inf", 7003: "nan"}


def result(e):
    return " ".join(map(str, [EXOTIC.get(x, x) for x in e["r"]] if e["op"][0] == "x" else e["r"]))


def cases(c, module, consts):
    r = c.tlc(module, "INIT Init\nNEXT Next\nCONSTANTS %s\nINVARIANTS Laws Emit\nCHECK_DEADLOCK FALSE\n" % consts)
    if not r.completed:
        raise CheckError("TLC did not complete on " + module)
    es = list(r.emits())
    return es


def run_cases(c, es, bins, what, args=()):
    """Runs every case on every binary; a case whose numbers fit no component type is counted, not judged."""
    unfit = 0
    for label, b in bins:
        scripts = []
        for i in range(0, len(es), 40):
            g = es[i:i + 40]
            scripts.append((["reset"] + [case_line(e) for e in g], ["ok"] + [result(e) for e in g]))
        cnt = [0]

        def match(x, g):
            if g == "none":
                cnt[0] += 1
                return True
            return x == g
        if b:
            replay_scripts(c, scripts, b, "%s, %s" % (what, label), args, match=match)
            unfit = max(unfit, cnt[0])
    return unfit


def c21(c):
    ns = (1, 2, 3, 4, 5, 7) if c.thorough else (1, 2, 3, 4, 5)
    builds = [("gcc", dict(flags=GCC)), ("clang", dict(cxx="clang++", flags=CLANG)), ("gcc -O3", dict(flags=O3))]
    if not c.thorough:
        want = [(n, l, f) for n in ns for l, f in builds if l == "gcc" or n in (3, 4) and l == "clang" or n in (2, 4, 5) and l == "gcc -O3"]
    else:
        want = [(n, l, f) for n in ns for l, f in builds]
    with cf.ThreadPoolExecutor(3) as ex:
        fb = ex.submit(c.build_all, [dict(src="vectors.cpp", name="vectors%d" % n, **{**f, "flags": f["flags"] + ["-DVP_N=%d" % n]}) for n, l, f in want])
        specs = dict(zip(ns, ex.map(lambda n: cases(c, "Vectors", "N = %d Level = %d" % (n, 2 if c.thorough else 0)), ns)))
        bins = fb.result()
    unfit = {}
    for n in ns:
        unfit[n] = run_cases(c, specs[n], [(l, b) for (m, l, f), b in zip(want, bins) if m == n], "vectors of dimension %d" % n)
        if unfit[n] > len(specs[n]) // 10:
            raise CheckError("too few cases are judged in dimension %d" % n)
    c.notes["cases"] = {n: len(s) for n, s in specs.items()}
    c.notes["cases no component type represents"] = unfit
    c.sample({"case": specs[3][100]})


def c22(c):
    quick = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (3, 4), (4, 3), (4, 4), (5, 5), (5, 2), (2, 5)]
    shapes = [(x, y) for x in range(1, 6) for y in range(1, 6)] if c.thorough else quick
    parts = [[(4, 4)], [(3, 3), (1, 1)], [(2, 2), (5, 5)], [(3, 4), (1, 3)], [(4, 3), (3, 1)], [(2, 3), (3, 2)], [(2, 4), (5, 2)], [(4, 2), (2, 5)]]
    parts += [[s] for s in shapes if not any(s in p for p in parts)]
    clang = parts if c.thorough else [[(4, 4)], [(2, 3), (3, 2)]]
    o3 = parts if c.thorough else [[(4, 4)], [(3, 3), (1, 1)], [(4, 2), (2, 5)]]
    want = [("gcc", p, dict(flags=GCC)) for p in parts] + [("clang", p, dict(cxx="clang++", flags=CLANG)) for p in clang] + [("gcc -O3", p, dict(flags=O3)) for p in o3]
    arg = lambda p: "-DVP_SHAPES=" + " ".join("SHAPE(%d,%d)" % s for s in p)
    with cf.ThreadPoolExecutor(5) as ex:
        fb = ex.submit(c.build_all, [dict(src="matrices.cpp", name="matrices%d%d" % p[0], **{**f, "flags": f["flags"] + [arg(p)]}) for l, p, f in want])
        specs = dict(zip(shapes, ex.map(lambda s: cases(c, "Matrices", "C = %d R = %d Ks = {%s} Level = %d" % (s[0], s[1], "1,2,3,4,5" if c.thorough or max(s) < 5 else "1,2,4", 1 if c.thorough else 0)), shapes)))
        bins = fb.result()
    todo = [(s, l, b) for (l, p, f), b in zip(want, bins) for s in p]
    with cf.ThreadPoolExecutor(4) as ex:
        for (s, l, b), u in zip(todo, ex.map(lambda t: run_cases(c, specs[t[0]], [(t[1], t[2])], "matrices of %d columns and %d rows" % t[0], args=["%dx%d" % t[0]]), todo)):
            if u > len(specs[s]) // 10:
                raise CheckError("too few cases are judged for %s" % (s,))
    c.notes["cases"] = {"%dx%d" % s: len(x) for s, x in specs.items()}
    c.sample({"case": specs[(3, 2)][50]})


def c24(c):
    want = [("gcc", dict(flags=GCC)), ("clang", dict(cxx="clang++", flags=CLANG)), ("gcc -O3", dict(flags=O3)), ("clang -O3", dict(cxx="clang++", flags=O3))]
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(c.build_all, [dict(src="quaternions.cpp", name="quaternions", **f) for l, f in want])
        es = cases(c, "Quaternions", "Level = %d" % (2 if c.thorough else 1))
        bins = fb.result()
    u = run_cases(c, es, [(l, b) for (l, f), b in zip(want, bins)], "quaternions")
    if u:
        raise CheckError("cases were not judged")
    c.notes["cases"] = len(es)
    c.sample({"case": es[100]})


def c23(c):
    lh = ["-DXME_MATH_CLIP_LH"]
    want = [("rh", "gcc", dict(flags=GCC)), ("lh", "gcc, left-handed default", dict(flags=GCC + lh)), ("rh", "clang", dict(cxx="clang++", flags=CLANG)), ("lh", "clang -O3, left-handed default", dict(cxx="clang++", flags=O3 + lh)), ("rh", "gcc -O3", dict(flags=O3))]
    with cf.ThreadPoolExecutor(3) as ex:
        fb = ex.submit(c.build_all, [dict(src="transforms.cpp", name="transforms", **f) for h, l, f in want])
        specs = dict(zip(("rh", "lh"), ex.map(lambda h: cases(c, "Transforms", 'Clip = "%s" Level = %d' % (h, 1 if c.thorough else 0)), ("rh", "lh"))))
        bins = fb.result()
    for h in specs:
        if run_cases(c, specs[h], [(l, b) for (k, l, f), b in zip(want, bins) if k == h], "transforms"):
            raise CheckError("cases were not judged")
    c.notes["cases"] = {h: len(s) for h, s in specs.items()}
    c.sample({"case": next(e for e in specs["rh"] if e["op"] == "rotate" and e["d"] > 40)})
