"""C31: the SIMD levels (spec/Simd): every set of requested levels, a spread of compiler targets, the set operators."""
import concurrent.futures as cf
import random
import subprocess
from ..core import *

LEVELS = ["mmx", "sse", "sse2", "sse3", "ssse3", "sse41", "sse42", "avx", "avx2", "avx512f"]
FLAGS = ["mmx", "sse", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "avx512f"]
PREDEFINED = ["__MMX__", "__SSE__", "__SSE2__", "__SSE3__", "__SSSE3__", "__SSE4_1__", "__SSE4_2__", "__AVX__", "__AVX2__", "__AVX512F__"]
UNIT = """%s
#include <xme/hal/simd_detection.hpp>
%s
using xme::hal::ESimd;
#define SELECT(n, v) (n)
static constexpr unsigned long bits[] = {%s};
static constexpr int at(ESimd v) {                 // the levels in a mask; -1 when it has other bits
    unsigned long m = static_cast<unsigned long>(v);
    int r = 0;
    for(int i = 0; i < 10; i++)
        if(m & bits[i]) { r |= 1 << i; m &= ~bits[i]; }
    return m ? -1 : r;
}
extern "C" const int r_%d[];
const int r_%d[] = {%s at(xme::hal::enabled_simd), at(xme::hal::supported_simd), at(ESimd(XME_ENABLED_SIMD)), at(ESimd(XME_SUPPORTED_SIMD))};
"""
MACRO_IF = "\n".join("#if XME_SIMD_%s_%s\nenum { p%s%d = 1 };\n#else\nenum { p%s%d = 0 };\n#endif" % (w, l.upper(), w, i, w, i) for w in ("USE", "HAS") for i, l in enumerate(LEVELS))
BITS = ", ".join("static_cast<unsigned long>(ESimd::%s)" % l for l in LEVELS)
OPS = """#include <xme/hal/simd_detection.hpp>
#include <cstdio>
using xme::hal::ESimd;
static const ESimd level[] = {%s};
static ESimd of(int m) { unsigned long v = 0; for(int i = 0; i < 10; i++) if(m >> i & 1) v |= static_cast<unsigned long>(level[i]); return static_cast<ESimd>(v); }
static int at(ESimd e) { unsigned long m = static_cast<unsigned long>(e); int r = 0; for(int i = 0; i < 10; i++) { unsigned long b = static_cast<unsigned long>(level[i]); if(m & b) { r |= 1 << i; m &= ~b; } } return m ? -1 : r; }
constexpr ESimd both = ESimd::sse | ESimd::avx2;
static_assert((both & ESimd::sse) == ESimd::sse && (both & ESimd::avx) == ESimd{});
int main() {
    const unsigned long macros[] = {%s};
    for(int i = 0; i < 10; i++) std::printf("%%lu %%lu\\n", static_cast<unsigned long>(level[i]), macros[i]);
    for(int a, b; std::scanf("%%d %%d", &a, &b) == 2;) std::printf("%%d %%d\\n", at(of(a) | of(b)), at(of(a) & of(b)));
}
"""


def number(names):
    return sum(b << i for i, b in enumerate(names))


def said(n):
    return "?" if n < 0 else "{%s}" % ", ".join(l for i, l in enumerate(LEVELS) if n >> i & 1)


def c31(c):
    rng = random.Random(c.seed + 31)
    r = c.tlc("Simd", "INIT Init\nNEXT Next\nCONSTANT Pairs = %d\nINVARIANTS Laws Emit\nCHECK_DEADLOCK FALSE\n" % (3 if c.thorough else 2))
    if not r.completed:
        raise CheckError("TLC did not complete on Simd")
    cases = list(r.emits())
    requests = [(number(e["a"]), number(e["r"])) for e in cases if e["k"] == "enable"]
    targets = [(e["up"], e["down"], number(e["r"])) for e in cases if e["k"] == "target"]
    ops = [e for e in cases if e["k"] == "ops"]
    jobs = []                                  # (requested, enabled, target flags, supported, how requested, compiler)
    base = number([1, 1, 1] + [0] * 7)
    some = requests if c.thorough else [q for q in requests if bin(q[0]).count("1") <= 2 or q[0] == 1023] + rng.sample(requests, 140)
    for q, u in some:
        jobs.append((q, u, [], base, rng.choice(("define", "define1", "option")), rng.choice(("g++", "g++", "clang++"))))
    for up, down, has in targets:
        fl = (["-m" + FLAGS[up - 1]] if up else []) + (["-mno-" + FLAGS[down - 1]] if down <= 10 else [])
        for q, u in (requests[::37] if c.thorough else rng.sample(requests, 2)):
            jobs.append((q, u, fl, has, "define", rng.choice(("g++", "clang++"))))
    seen = {}

    def compiler_has(cxx, fl):                # what the compiler itself says its target has
        key = (cxx, tuple(fl))
        if key not in seen:
            p = subprocess.run([cxx, "-dM", "-E", "-x", "c++", "/dev/null"] + fl, capture_output=True, text=True)
            seen[key] = p.returncode == 0 and sum(1 << i for i, m in enumerate(PREDEFINED) if "#define %s " % m in p.stdout)
        return seen[key]

    def unit(n):
        q, u, fl, has, how, cxx = jobs[n]
        says = compiler_has(cxx, fl)
        if says is False:
            return n, None
        if says != has:                       # e.g. what a compiler does with contradicting flags
            if not any(f.startswith("-mno-") for f in fl):
                raise CheckError("%s %s has %s, the specification says %s" % (cxx, fl, said(says), said(has)))
            return n, None
        asked = [l.upper() for i, l in enumerate(LEVELS) if q >> i & 1]
        rng2 = random.Random(n + 1000 * c.seed)
        rng2.shuffle(asked)
        head = "\n".join("#define XME_SIMD_ENABLE_%s%s" % (a, " 1" if how == "define1" else "") for a in asked) if how != "option" else ""
        values = "".join("%s, " % " | ".join("p%s%d << %d" % (w, i, i) for i in range(10)) for w in ("USE", "HAS"))
        values += "".join("%s, " % " | ".join("int(XME_SIMD_%s_%s) << %d" % (w, l.upper(), i) for i, l in enumerate(LEVELS)) for w in ("USE", "HAS"))
        src = c.write("u%d.cpp" % n, UNIT % (head, MACRO_IF, BITS, n, n, values))
        o = c.path("u%d.o" % n)
        p = subprocess.run([cxx, "-std=c++20", "-I" + os.path.join(REPO, "include"), "-w", "-c", src, "-o", o] + fl + (["-DXME_SIMD_ENABLE_" + a for a in asked] if how == "option" else []), capture_output=True, text=True)
        return n, (o if p.returncode == 0 else p.stderr)

    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(unit, range(len(jobs))))
    objs = []
    for n, o in res:
        if o and not o.endswith(".o"):
            c.violation("the SIMD header does not compile when %s is requested for target %s: %s" % (said(jobs[n][0]), jobs[n][2], o[:500]), {"kind": "build", "log": o[:3000]}, key="build")
        elif o:
            objs.append((n, o))
    if len(objs) < 100:
        if c.violations:
            return
        raise CheckError("only %d units were built" % len(objs))
    main = "#include <cstdio>\n" + "".join("extern \"C\" const int r_%d[];\n" % n for n, _ in objs)
    main += "int main() { const int* t[] = {%s};\nfor(auto p : t) { for(int i = 0; i < 8; i++) std::printf(\"%%d \", p[i]); std::puts(\"\"); } }\n" % ", ".join("r_%d" % n for n, _ in objs)
    b = c.build(c.write("units.cpp", main), libs=["@" + c.write("objs", "\n".join(o for _, o in objs))])
    rc, out, err = c.run(b)
    if rc:
        raise CheckError("the table could not be printed: " + err[-500:])
    lines = out.splitlines()
    fields = ["XME_SIMD_USE_* in #if", "XME_SIMD_HAS_* in #if", "XME_SIMD_USE_* in expressions", "XME_SIMD_HAS_* in expressions", "enabled_simd", "supported_simd", "XME_ENABLED_SIMD", "XME_SUPPORTED_SIMD"]
    for (n, _), l in zip(objs, lines):
        q, u, fl, has, how, cxx = jobs[n]
        got = [int(x) for x in l.split()]
        for i, f in enumerate(fields):
            want = has if "HAS" in f or "upp" in f or "SUPP" in f else u
            if got[i] != want:
                c.violation("with %s requested (%s) and target %s of %s, %s is %s instead of %s" % (said(q), how, fl, cxx, f, said(got[i]), said(want)),
                            {"kind": "levels", "requested": said(q), "flags": fl, "compiler": cxx}, key="levels")
    c.traces += len(objs)
    c.steps += 8 * len(objs)
    src = c.write("ops.cpp", OPS % (", ".join("ESimd::" + l for l in LEVELS), ", ".join("XME_SIMD_" + l.upper() for l in LEVELS)))
    bins = c.build_all([dict(src=src, flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]), dict(src=src, flags=["-O2"], cxx="clang++")])
    text = "".join("%d %d\n" % (number(e["a"]), number(e["b"])) for e in ops)
    for b in bins:
        if not b:
            continue
        rc, out, err = c.run(b, stdin=text)
        lines = out.splitlines()
        if rc or len(lines) != len(ops) + 10:
            c.violation("the set operators die: " + err[:500], {"kind": "crash", "stderr": err[:2000]}, key="crash")
            continue
        vals = [[int(x) for x in l.split()] for l in lines[:10]]
        used = 0
        for l, (v, m) in zip(LEVELS, vals):
            if v == 0 or v != m or v & used:
                c.violation("the value of %s (%d, macro %d) is not a set of bits of its own" % (l, v, m), {"kind": "value"}, key="values")
            used |= v
        for e, l in zip(ops, lines[10:]):
            got = [int(x) for x in l.split()]
            if got != [number(e["or"]), number(e["and"])]:
                c.violation("for %s and %s, | gives %s and & gives %s" % (said(number(e["a"])), said(number(e["b"])), said(got[0]), said(got[1])), {"kind": "ops", "case": e}, key="ops")
        c.traces += 1
        c.steps += len(ops)
    c.notes["configurations"] = len(objs)
    c.sample({"requested": said(jobs[5][0]), "enabled": said(jobs[5][1])})
    c.assumptions.append("x86-64 targets of gcc and clang")
