"""C18: find (spec/SearchAlgo, spec/Search).  C19: reverse (spec/SearchAlgo, spec/Reverse)."""
import random
import concurrent.futures as cf
from ..core import *
from ..graph import replay_scripts

E = "-DXME_SIMD_ENABLE_"
SAN = ["-g1", "-fsanitize=address"]
CONFIGS = [
    ("no SIMD", ["-O1"], CXX),
    ("SSE2", ["-O2", E + "SSE2"], CXX),
    ("SSE3, checked", SAN + ["-O1", "-msse3", E + "SSE3"], CXX),
    ("SSSE3", ["-O2", "-mssse3", E + "SSSE3"], CXX),
    ("SSE4.1", ["-O1", "-msse4.1", E + "SSE41"], CXX),
    ("AVX", ["-O2", "-mavx", E + "AVX"], CXX),
    ("AVX2", ["-O2", "-mavx2", E + "AVX2"], CXX),
    ("AVX2, checked", SAN + ["-fsanitize=undefined", "-fno-sanitize-recover=all", "-mavx2", E + "AVX2"], CXX),
    ("AVX2, clang", ["-O1", "-mavx2", E + "AVX2"], "clang++"),
    ("SSE4.2, clang", ["-O0", "-msse4.2", E + "SSE42"], "clang++"),
]


def design(c, ex):
    """the block algorithms, for every range of up to MaxN cells and every placement of equal cells"""
    return [ex.submit(c.tlc, "SearchAlgo", "SPECIFICATION Spec\nCONSTANTS W = %d MaxN = %d\nINVARIANTS Inside Found Reversed\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % (w, n))
            for w, n in ([(2, 11), (4, 11)] + ([(2, 14), (4, 14), (8, 18), (3, 14)] if c.thorough else []))]


def jobs(c, src):
    return [dict(src=src + ".cpp", name=src, cxx=cxx, flags=flags, libs=["-ltbb"]) for _, flags, cxx in CONFIGS]


def finish(c, ds, rs):
    for r in [d.result() for d in ds] + rs:
        if not r.completed:
            raise CheckError("TLC did not complete")


def c18(c):
    rng = random.Random(c.seed + 18)
    cfg = "INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Never = %s MaxN = %d Long = {%s}\n"
    with cf.ThreadPoolExecutor(6) as ex:
        fb = ex.submit(c.build_all, jobs(c, "find"))
        f1 = ex.submit(c.tlc, "Search", cfg % ("FALSE", 140 if c.thorough else 80, "100,127,128,129,200,255,256,257,1000,4099"))
        f2 = ex.submit(c.tlc, "Search", cfg % ("TRUE", 140, "255,256,257,1000"))
        ds = design(c, ex)
        rs = [f1.result(), f2.result()]
        bins = fb.result()
        finish(c, ds, rs)
    cases, nevers = list(rs[0].emits()), list(rs[1].emits())
    c.sample({"what": "cases", "cases": rng.sample(cases, 5)})

    def scripts(xs):
        return [(["reset", "%d %d %s %s" % (x["n"], x["p"], x["e"], x["q"])], ["ok", str(x["r"])]) for x in xs]
    short = [x for x in cases if x["n"] <= 40]
    for (what, flags, cxx), b in zip(CONFIGS, bins):
        xs = cases if c.thorough else rng.sample(cases, min(len(cases), 5000 if "-fsanitize=address" in flags or "-O0" in flags else 12000)) + (short if what in ("AVX2", "SSE2") else [])
        replay_scripts(c, scripts(xs), b, "find (%s)" % what, ["values"], timeout=600 if c.thorough else 150)
        replay_scripts(c, scripts(nevers), b, "find (%s), a value that equals nothing" % what, ["never"])
        c.log(what, len(xs), "cases")
        c.notes.setdefault("cases", {})[what] = len(xs) + len(nevers)


def c19(c):
    cfg = "INIT Init\nNEXT Next\nINVARIANTS Right Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxN = %d Long = {%s} Before = {0, 1, 5, 33} Behind = {0, 1, 7, 32}\n"
    with cf.ThreadPoolExecutor(6) as ex:
        fb = ex.submit(c.build_all, jobs(c, "reverse"))
        f1 = ex.submit(c.tlc, "Reverse", cfg % (270 if c.thorough else 150, "160,191,192,193,200,255,256,257,1000,2047"))
        ds = design(c, ex)
        r = f1.result()
        bins = fb.result()
        finish(c, ds, [r])
    cases = list(r.emits())
    c.sample({"what": "case", "case": next(x for x in cases if x["n"] == 5 and x["l"] == 1)})
    sc = [(["reset", "%d %d %d" % (x["n"], x["l"], x["t"])], ["ok", "%d | %s" % (x["ret"], " ".join(map(str, x["mem"])))]) for x in cases]
    sc = [(a, [b.rstrip() if i == 0 else b.strip() for i, b in enumerate(x)]) for a, x in sc]
    for (what, flags, cxx), b in zip(CONFIGS, bins):
        replay_scripts(c, sc, b, "reverse (%s)" % what, timeout=600 if c.thorough else 150)
        c.log(what, len(sc), "cases")
        c.notes.setdefault("cases", {})[what] = len(sc)
