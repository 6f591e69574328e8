"""C36: what the headers find out about the target (spec/Detect), asked of every target clang knows the facts of, and of gcc."""
import concurrent.futures as cf
import random
import subprocess
from ..core import *

TRIPLES = {
    ("linux", "x86_64"): ["x86_64-linux-gnu", "x86_64-linux-musl", "x86_64-linux-android"], ("linux", "i386"): ["i386-linux-gnu", "i686-linux-gnu", "x86_64-linux-gnux32"], ("linux", "arm"): ["arm-linux-gnueabihf", "thumbv7-linux-gnueabi", "armeb-linux-gnueabi"],
    ("linux", "aarch64"): ["aarch64-linux-gnu", "aarch64_be-linux-gnu"], ("linux", "riscv64"): ["riscv64-linux-gnu"], ("linux", "ppc64"): ["powerpc64le-linux-gnu"], ("linux", "s390x"): ["s390x-linux-gnu"], ("linux", "mips64"): ["mips64el-linux-gnuabi64"],
    ("windows", "x86_64"): ["x86_64-pc-windows-msvc", "x86_64-w64-windows-gnu"], ("windows", "i386"): ["i686-pc-windows-msvc", "i686-w64-windows-gnu"], ("windows", "arm"): ["thumbv7-pc-windows-msvc"], ("windows", "aarch64"): ["aarch64-pc-windows-msvc"],
    ("apple", "x86_64"): ["x86_64-apple-macosx"], ("apple", "i386"): ["i386-apple-macosx"], ("apple", "arm"): ["armv7-apple-ios"], ("apple", "aarch64"): ["arm64-apple-macosx", "arm64-apple-ios"],
    ("freebsd", "x86_64"): ["x86_64-unknown-freebsd"], ("freebsd", "i386"): ["i386-unknown-freebsd"], ("freebsd", "aarch64"): ["aarch64-unknown-freebsd"],
    ("none", "wasm32"): ["wasm32-unknown-unknown"], ("none", "arm"): ["arm-none-eabi"], ("none", "riscv64"): ["riscv64-unknown-elf"], ("none", "x86_64"): ["x86_64-unknown-elf"],
}
STD = ("algorithm any array atomic barrier bit bitset cassert ccomplex cctype cerrno cfenv cfloat charconv chrono cinttypes climits clocale cmath codecvt compare complex concepts condition_variable coroutine csetjmp "
       "csignal cstdarg cstddef cstdint cstdio cstdlib cstring ctime cuchar cwchar cwctype deque exception execution filesystem format forward_list fstream functional future initializer_list iomanip ios iosfwd iostream istream "
       "iterator latch limits list locale map memory memory_resource mutex new numbers numeric optional ostream queue random ranges ratio regex scoped_allocator semaphore set shared_mutex source_location span sstream stack "
       "stdexcept stop_token streambuf string string_view strstream syncstream system_error thread tuple type_traits typeindex typeinfo unordered_map unordered_set utility valarray variant vector version "
       "expected generator mdspan print stacktrace spanstream flat_map flat_set stdfloat").split()
HEADERS = ["hal/platform_macros.hpp", "hal/architecture_detection.hpp", "hal/compiler_detection.hpp", "hal/std_detection.hpp", "setup.hpp"]


def c36(c):
    rng = random.Random(c.seed + 36)
    r = c.tlc("Detect", "INIT Init\nNEXT Next\nINVARIANTS Laws Emit\nCHECK_DEADLOCK FALSE\n")
    if not r.completed:
        raise CheckError("TLC did not complete on Detect")
    # standard libraries that say only which one they are
    stubs = {}
    for lib, macro in (("gnu", "__GLIBCXX__ 20240101"), ("llvm", "_LIBCPP_VERSION 180000"), ("none", "_NO_LIBRARY 1")):
        d = stubs[lib] = c.path("std-" + lib)
        os.makedirs(d)
        for h in STD:
            with open(os.path.join(d, h), "w") as f:
                f.write("#pragma once\n#define %s\n" % macro)
    cases = []
    for e in r.emits():
        t = e["t"]
        if t["compiler"] == "gcc":
            if t["platform"] == "linux" and t["arch"] in ("x86_64", "i386") and t["standard"] == 20:      # this gcc's C++23 is a draft
                cases.append((e, ["g++", "-m64" if t["arch"] == "x86_64" else "-m32"]))
        else:
            for triple in TRIPLES.get((t["platform"], t["arch"]), ()):
                cases.append((e, ["clang++", "--target=" + triple]))
    todo = []
    for e, cxx in cases:
        for first in ((True, False) if c.thorough or rng.random() < 0.3 else (rng.random() < 0.5,)):
            hs = HEADERS[:]
            rng.shuffle(hs)
            todo.append((len(todo), e, cxx, first, hs))

    def text(e, first, hs):
        L = ["#include <cstddef>"] if first else []
        L += ["#include <xme/%s>" % h for h in hs]
        L += ["static_assert(%s%s);" % (p, m) for p, k in (("", "true"), ("!", "false")) for m in sorted(e[k])]
        for k, d in (("defined", "ndef"), ("undefined", "def")):
            L += ["#if%s %s\n#error %s is %sdefined\n#endif" % (d, m, m, "not " if d == "ndef" else "") for m in sorted(e[k])]
        for k, p in (("true", "!"), ("false", "")):                # they also work in the preprocessor
            L += ["#if %s%s\n#error %s is wrong\n#endif" % (p, m, m) for m in sorted(e[k])]
        L += ["XME_CONSTEXPR20 inline int one() { return 1; }", "XME_CONSTEXPR int two() { return 2; } static_assert(two() == 2);"]
        L += ["struct S { XME_INLINE constexpr int three() const { return 3; } }; static_assert(S{}.three() == 3);", "XME_INLINE int four(int n) { return n + 4; }", "template<typename T> XME_INLINE constexpr auto five(T n) noexcept -> T { return n + 5; } static_assert(five(1) == 6);"]
        if e["export"] != "unspecified":
            L += ['extern "C" DLLEXPORT int exported(int n) { return four(n); }', 'extern "C" int inside(int n) { return four(n) + 1; }', 'extern "C" DLLIMPORT int imported(int n);', 'extern "C" DLLEXPORT int calls(int n) { return imported(n); }']
        return "\n".join(L) + "\n"

    def one(job):
        n, e, cxx, first, hs = job
        f = c.write("detect-%d.cpp" % n, text(e, first, hs))
        t = e["t"]
        cmd = cxx + ["-std=c++%d" % t["standard"] if t["standard"] == 20 else "-std=c++2b", "-nostdinc", "-nostdinc++", "-fvisibility=hidden", "-isystem", stubs[t["library"]], "-I" + os.path.join(REPO, "include"), f]
        if cxx[0] == "clang++":
            cmd += ["-S", "-emit-llvm", "-o", f + ".ll"]
        else:
            cmd += ["-S", "-o", f + ".s"]
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=120)
        what = "compiled by %s as C++%d with the %s library, %s" % (" ".join(cxx), t["standard"], t["library"], "after a standard header" if first else "with nothing before")
        bad = None
        if p.returncode:
            bad = [re.sub(r"^\S+ ", "", l) for l in p.stderr.splitlines() if "error" in l]
        else:
            out = open(f + (".ll" if cxx[0] == "clang++" else ".s"), errors="replace").read()
            bad = (linkage(e["export"], cxx[0], out) or []) + inline(cxx[0], out)
        return job, what, bad, p.stderr

    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, todo))
    said = set()
    for (n, e, cxx, first, hs), what, bad, err in res:
        c.traces += 1
        c.steps += len(e["true"]) + len(e["false"]) + len(e["defined"]) + len(e["undefined"])
        if bad:
            c._control_build()
            k = bad[0][:60]
            if k not in said:
                said.add(k)
                c.violation("%s: %s" % (what, " / ".join(bad[:4])[:900]), {"kind": "detect", "target": e["t"], "headers": hs, "stderr": err[-3000:], "source": text(e, first, hs)}, key="detect")
    c.notes["targets"] = len({tuple(x[2]) for x in todo})
    c.sample({"target": todo[0][1]["t"], "true": todo[0][1]["true"], "defined": todo[0][1]["defined"]})
    c.assumptions.append("standard libraries and other platforms are represented by the macros that identify them")


def inline(cxx, out):
    """Functions marked inline may be defined in every translation unit: here none of them is a strong definition."""
    if cxx == "clang++":
        strong = [l for l in out.splitlines() if l.startswith("define") and re.search(r"\W(_?_Z\w*4fouri|\?four@@)", l) and not re.search(r"^define (dso_local )?(linkonce|weak|internal|private|available)", l)]
    else:
        strong = [m for m in re.findall(r"\.globl\s+(_Z\w*4fouri)", out) if not re.search(r"\.weak\s+" + m, out)]
    return ["a function marked XME_INLINE is a strong definition"] if strong else []


def linkage(kind, cxx, out):
    """What the functions of the program look like from outside."""
    if kind == "unspecified":
        return None
    if cxx == "clang++":
        d = {m.group(3): m.group(0) for m in re.finditer(r"^(define|declare)([^@\n]*)@\"?\\?0?1?_?(\w+)\"?\(.*$", out, re.M)}
        look = {k: d.get(k, "") for k in ("exported", "inside", "calls")}
        if kind == "dllexport":
            bad = ["DLLEXPORT does not export" for k in ("exported", "calls") if "dllexport" not in look[k]]
            imp = [l for l in out.splitlines() if "imported(" in l and l.startswith("declare")]
            if not any("dllimport" in l for l in imp):
                bad.append("DLLIMPORT does not import")
            return bad
        bad = ["DLLEXPORT leaves a function hidden" for k in ("exported", "calls") if not look[k] or "hidden" in look[k]]
        if any("hidden" in l for l in out.splitlines() if l.startswith("declare") and "imported(" in l):
            bad.append("DLLIMPORT makes a function hidden")
        return bad
    hidden = set(re.findall(r"\.hidden\s+(\w+)", out))
    return ["%s is hidden" % k for k in ("exported", "calls", "imported") if k in hidden]
