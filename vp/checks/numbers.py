"""C30: constants and trigonometry (spec/BigNum, Constants, Trig; ConstTrace and NumTrace judge the library's numbers)."""
import concurrent.futures as cf
import json
import random
from ..core import *

NAMES = ("e e_sqr e_pow_pi pi two_pi two_over_pi pi_over_two pi_sqr inv_pi tau log2_e log10_e ln_two ln_ten sqrt_two sqrt_three sqrt_five sqrt_e sqrt_pi "
         "sqrt_two_pi sqrt_two_pi_e inv_sqrt_pi cbrt_two inv_fibonacci phi catalan euler gauss plastic zeta_two zeta_three zeta_four").split()
GROUPS = [NAMES[i::6] for i in range(6)]
PI = 31415926535897932384626433832795028841971693993751058209749445923078164062862089986280348253421170679          # only to choose inputs
BITS = {"float": 24, "double": 53, "long_double": 64}
ANGLES, DIRECT, ARCS = ["radians", "degrees"], ["sin", "cos", "tan", "sec", "csc", "cot"], ["arcsin", "arccos", "arctan"]


def hexed(n, e):
    return "%s0x%xp%d" % ("-" if n < 0 else "", abs(n), e)


def near(num, den, bits):
    """num/den rounded down to `bits` bits: mantissa and exponent"""
    e = num.bit_length() - den.bit_length() - bits - 2
    m = (num << -e) // den if e < 0 else num // (den << e)
    s = m.bit_length() - bits
    return m >> s, e + s


def inputs(rng, n):
    res = []
    scales = {"float": 90, "double": 900, "long_double": 12000}
    for t, b in BITS.items():
        def some(lo, hi):                               # a full mantissa with an exponent in lo..hi
            return hexed(rng.choice((-1, 1)) * (rng.getrandbits(b - 1) | 1 << (b - 1)), rng.randint(lo, hi) - b)
        plain = ["0", "-0", "1", "-1", "0.5", "-0.5", "2", "3", "0.25", "-4", "0x1p-20", "-0x1p-30", "0x3p-2"]
        degrees = ["30", "45", "90", "-90", "180", "360", "-720", "57", "1"]
        for f in ANGLES:
            for x in plain + degrees + [some(-20, 20) for _ in range(n)]:
                for k in (0, scales[t], -scales[t]):
                    if k == 0 or rng.random() < 0.5:
                        res.append((f, t, x, k))
        close = []
        for q in [1, 2, 3, 4, 5, 8, 11, 355 * 2 // 3, rng.randint(100, 10 ** 4), rng.randint(10 ** 4, 6 * 10 ** 5)]:
            for d in (0, 1, rng.randint(2, 9), -rng.randint(1, 9)):
                m, e = near(q * PI, 2 * 10 ** 100, b)
                close.append(hexed(rng.choice((-1, 1)) * (m + d), e))
            m, e = near(q * PI, 4 * 10 ** 100, b)
            close.append(hexed(m, e))
        for f in DIRECT:
            for x in plain + close + [some(-20, 20 if t == "float" else 20) for _ in range(n)] + [some(0, 3) for _ in range(n)]:
                res.append((f, t, x, 0))
        for f in ARCS:
            unit = [some(-20, 0) for _ in range(n)] + [some(-2, 0) for _ in range(n)] + [hexed(s * ((1 << b) - d), -b) for s in (1, -1) for d in (1, 2, 3, 1000)] + [hexed(s * ((1 << b - 1) + 1), 1 - b) for s in (1, -1)]
            for x in plain + unit + ([some(0, 30) for _ in range(n)] if f == "arctan" else []):
                res.append((f, t, x, 0))
    for t in ("int", "unsigned", "char", "long"):
        for f in DIRECT + ARCS:
            for x in (0, 1, 2, 3, 11, 22, 44, 100, -1, -2, -3, -22, -104):
                if x >= 0 or t != "unsigned":
                    res.append((f, t, str(x), 0))
    return res


def c30(c):
    rng = random.Random(c.seed + 30)
    cases = inputs(rng, 40 if c.thorough and not c.importing else 4)
    if c.importing:
        cases = cases[::4]
    groups = [["pi", "e", "phi", "ln_ten", "ln_two", "sqrt_two", "sqrt_three"]] if c.importing else GROUPS

    builds = [dict(src="trig.cpp", flags=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]), dict(src="trig.cpp", flags=["-O3", "-march=x86-64-v3"]),
              dict(src="trig.cpp", cxx="clang++", flags=["-O2"]), dict(src="trig.cpp", flags=["-O0", "-ffp-contract=off"])]
    bins = c.build_all(builds)
    consts, nums, who = {}, {}, {}
    for j, b in enumerate(bins):
        if not b:
            continue
        rc, out, err = c.run(b, ["constants"])
        rc2, out2, err2 = c.run(b, stdin="\n".join("%s %s %s %d" % x for x in cases) + "\n")
        if rc or rc2:
            c.violation("build %d dies: %s" % (j, (err + err2)[:700]), {"kind": "crash", "stderr": (err + err2)[:3000]}, key="crash")
            continue
        for kind, text in ((consts, out), (nums, out2)):
            for l in text.splitlines():                # the same record from several builds is judged once
                if j not in kind.setdefault(l, []):
                    kind[l].append(j)
        c.traces += 2
        c.steps += len(out.splitlines()) + len(out2.splitlines())
    if not nums:
        return
    ctext, ntext = [], list(nums)
    for l in consts:
        r = json.loads(l)
        ctext.append(json.dumps({"n": r["n"], "p": r["p"], "s": r["v"]["s"], "m": r["v"]["m"] if r["v"]["m"] else [9999] + [0] * 15}))
    if len(consts) < 4 * len(NAMES) and not c.importing and sum(json.loads(l)["n"] in NAMES for l in consts) < 3 * len(NAMES):
        raise CheckError("constants are missing")
    cp, np = c.write("consts.json", "\n".join(ctext) + "\n"), c.write("nums.json", "\n".join(ntext) + "\n")
    parts = 8

    def tlc(job):
        kind, k = job
        if kind == "const":
            return c.tlc("ConstTrace", "INIT Init\nNEXT Next\nCONSTANT Part = {%s}\nINVARIANTS Known Lawful Accurate\nCHECK_DEADLOCK FALSE\n" % ", ".join('"%s"' % n for n in groups[k]),
                         env={"TRACE": cp}, extra=["-continue"], heap="2g", ok_rc=None)
        return c.tlc("NumTrace", "INIT Init\nNEXT Next\nCONSTANTS Part = %d Parts = %d\nINVARIANT Right\nCHECK_DEADLOCK FALSE\n" % (k, parts), env={"TRACE": np}, extra=["-continue"], heap="2g", ok_rc=None)
    with cf.ThreadPoolExecutor(8) as ex:
        jobs = [("num", k) for k in range(parts)] + [("const", k) for k in range(len(groups))]
        for (kind, k), r in zip(jobs, ex.map(tlc, jobs)):
            bad = re.findall(r"Invariant (\w+) is violated by the initial state:\s*(.*?)\n\n", r.out, re.S)
            if not bad and r.completed and "violated" not in r.out and r.distinct == (len(groups[k]) if kind == "const" else len([i for i in range(1, len(ntext) + 1) if i % parts == k])):
                continue                               # -continue: TLC "completes" in spite of violations
            if not bad:
                raise CheckError("TLC failed on %s part %d:\n%s" % (kind, k, r.out[-2000:]))
            for inv, state in bad:
                if kind == "num":
                    l = ntext[int(re.search(r"\bi = (\d+)", state).group(1)) - 1]
                    what = show(json.loads(l))
                    c.violation("%s (builds %s)" % (what, nums[l]), {"kind": "value", "record": l}, key="value")
                else:
                    n = re.search(r'\bn = "(\w+)"', state).group(1)
                    if inv == "Lawful":
                        raise CheckError("the specification's own value of %s is wrong" % n)
                    c.violation("the constant %s is not the value of its definition to the precision of its type" % n, {"kind": "constant", "records": [l for l in consts if '"n":"%s"' % n in l]}, key="constant:" + n)
    c.notes["values_judged"] = len(ntext) + len(ctext)
    c.sample({"values": [show(json.loads(l)) for l in ntext[:3]]})
    c.assumptions.append("results within four units of the last place, constants within one; |x| < 10^6 for direct functions")


def show(r):
    def dec(v):
        if not v["m"]:
            return {0: "not a number", 2: "infinite", -2: "-infinite"}[v["s"]]
        if v["e"]:
            return repr(v["s"] * int("".join("%04d" % x for x in v["m"])) * 2.0 ** v["e"] / 1e48)
        d = "".join("%04d" % x for x in v["m"])
        return ("-" if v["s"] < 0 else "") + (d[:16].lstrip("0") or "0") + "." + d[16:].rstrip("0")
    return "%s of the %s %s gives %s" % (r["f"], r["t"], dec(r["x"]), dec(r["y"]))
