"""C37: the headers (spec/Headers): alone, together in any order, in many translation units of one program."""
import concurrent.futures as cf
import random
import subprocess
from ..core import *
from .modules import USES

MORE = {
 "SPSCQueue": "xme::SPSCQueue<int> q(4); int s = 0; q.push(3); q.emplace(4); q.consume([&](int x) { s += x; }); return s == 3 && q.read_available() == 1;",
 "Capacity": "return xme::Capacity<7>::capacity == 7;",
 "Heap": "xme::Heap<int> h; h.push(1); h.push(5); h.emplace(3); h.pop(); return h.size() == 2 && *h.begin() == 3;",
 "IContainer": "struct C : xme::IContainer<C> { int v[3]{1, 2, 3}; int* begin() { return v; } int* end() { return v + 3; } }; C c; return c.size() == 3 && c[1] == 2 && c.back() == 3;",
 "find": "int v[] = {1, 2, 3}; return xme::find(v, v + 3, 2) == v + 1;",
 "reverse": "int v[] = {1, 2, 3}; xme::reverse(v, v + 3); return v[0] == 3 && v[2] == 1;",
 "has_single_bit": "return xme::has_single_bit(8u) && !xme::has_single_bit(6u);",
 "CArithmetic": "return xme::CArithmetic<float> && xme::CIntegral<char> && !xme::CArithmetic<int*>;",
 "CDifferentFrom": "return xme::CDifferentFrom<int, char> && !xme::CDifferentFrom<int, int> && !xme::CDifferentFromSelf<const int&, int>;",
 "CConstantIterator": "return xme::CConstantIterator<const int*> && !xme::CConstantIterator<int*>;",
 "ScopedDelegate": "int k = 0; { xme::ScopedDelegate d([&] { ++k; }); } return k == 1;",
 "ConstIterator": "int v[] = {1, 2}; xme::ConstIterator<int*> i(v); auto j = xme::make_const_iterator(v); ++i; return *i == 2 && std::is_same_v<decltype(*j), const int&>;",
 "iter_const_reference_t": "return std::is_same_v<xme::iter_const_reference_t<int*>, const int&>;",
 "is_scoped_enum": "enum class E { a }; enum F { b }; return xme::is_scoped_enum<E> && !xme::is_scoped_enum<F> && !xme::is_scoped_enum<int>;",
 "is_initializer_list": "return xme::is_initializer_list<std::initializer_list<int>> && !xme::is_initializer_list<int>;",
 "to_unsigned": "return xme::to_unsigned(-1) == ~0u && std::is_same_v<decltype(xme::to_unsigned('a')), unsigned char>;",
 "ESimd": "return (xme::hal::supported_simd & xme::hal::ESimd::sse2) == xme::hal::ESimd::sse2;",
 "XME_LIBSTD_GCC": "\n#ifdef XME_LIBSTD_GCC\nreturn true;\n#else\nreturn false;\n#endif\n",
 "XME_PLATFORM_LINUX": "return XME_PLATFORM_LINUX && !XME_PLATFORM_WINDOWS;",
 "XME_ARCH_X86": "return XME_ARCH_X86;",
 "DLLEXPORT": "struct DLLEXPORT S { int v = 4; }; return S().v == 4;",
 "XME_INLINE": "struct S { XME_INLINE int f() { return 4; } }; return S().f() == 4;",
 "get_environment_variable": "xme::hal::set_environment_variable(\"VP_HEADERS\", \"x1\"); return std::string(xme::hal::get_environment_variable(\"VP_HEADERS\")) == \"x1\";",
 "SharedLibrary": "xme::hal::SharedLibrary l(\"/no/such/library\"); return !l.is_open();",
 "destroy_a": "std::allocator<std::string> a; std::string* p = a.allocate(1); ::new(p) std::string(50, 'x'); xme::ranges::destroy_a(p, p + 1, a); a.deallocate(p, 1); return true;",
 "uninitialized_copy_a": "std::allocator<int> a; int v[] = {4, 5}, w[2]; xme::ranges::uninitialized_copy_a(v, v + 2, w, w + 2, a); return w[1] == 5;",
 "sign": "return xme::math::sign(-4.0) == -1 && xme::math::sign(3) == 1;",
 "lerp": "xme::math::Vector<float, 2> v{1, 2}, w{3, 6}; return xme::math::lerp(v, w, 0.5f) == xme::math::Vector<float, 2>{2, 4};",
 "dot": "xme::math::Vector<int, 3> v{1, 2, 3}; xme::math::Vector<int, 5> w{1, 1, 1, 1, 1}; return xme::math::dot(v, v) == 14 && xme::math::dot(w, w) == 5;",
 "cross": "xme::math::Vector<int, 3> v{1, 0, 0}, w{0, 1, 0}; return xme::math::cross(v, w) == xme::math::Vector<int, 3>{0, 0, 1};",
 "normalize": "xme::math::Vector<float, 4> v{0, 4, 0, 0}; return xme::math::normalize(v) == xme::math::Vector<float, 4>{0, 1, 0, 0};",
 "reflect": "xme::math::Vector<float, 2> v{1, -1}, n{0, 1}; return xme::math::reflect(v, n) == xme::math::Vector<float, 2>{1, 1};",
 "ortho": "auto m = xme::math::ortho(-1.0, 1.0, -1.0, 1.0, 0.0, 1.0); return m[0][0] == 1 && m[3][3] == 1;",
 "determinant": "xme::math::Matrix<float, 3, 3> m(2); xme::math::Matrix<float, 4, 4> n(2); return xme::math::determinant(m) == 8 && xme::math::determinant(n) == 16;",
 "transpose": "xme::math::Matrix<float, 2, 3> m; m[1][2] = 5; return xme::math::transpose(m)[2][1] == 5;",
 "outer_product": "xme::math::Vector<float, 2> v{1, 2}; return xme::math::outer_product(v, v)[1][1] == 4;",
 "hadamard_product": "xme::math::Matrix<float, 2, 2> m(3); return xme::math::hadamard_product(m, m)[1][1] == 9;",
 "translate": "xme::math::Matrix<float, 4, 4> m(1.0f); return xme::math::translate(m, xme::math::Vector<float, 3>{1, 2, 3})[3][1] == 2;",
 "scale": "xme::math::Matrix<float, 4, 4> m(1.0f); return xme::math::scale(m, xme::math::Vector<float, 3>{1, 2, 3})[1][1] == 2;",
 "rotate": "xme::math::Matrix<float, 4, 4> m(1.0f); return xme::math::rotate(m, 0.0f, xme::math::Vector<float, 3>{1, 0, 0})[1][1] == 1;",
 "mix": "return xme::math::mix(xme::math::vec2{1, 2}, xme::math::vec2{3, 6}, 0.5f) == xme::math::vec2{2, 4};",
}
USE = dict(USES, **MORE)
STD = "cstddef string tuple memory type_traits utility cstdio initializer_list iterator".split()
FLAGS = {"g++": ["g++", "-std=c++20", "-w", "-O0", "-fmax-errors=4"], "clang++": ["clang++", "-std=c++20", "-w", "-O0", "-ferror-limit=4"]}


def c37(c):
    rng = random.Random(c.seed + 37)
    cfg = "INIT Init\nNEXT Next\nCONSTANT Most = %d\nINVARIANT Agree\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
    r = c.tlc("Headers", cfg % 2)
    if not r.completed:
        raise CheckError("TLC did not complete on Headers")
    all_ = {tuple(e["seq"]): sorted(e["names"]) for e in r.emits()}
    singles = sorted(s for s in all_ if len(s) == 1)
    pairs = sorted(s for s in all_ if len(s) == 2)
    n = 40 if c.thorough else 6
    r = c.tlc("Headers", cfg % 100, extra=["-simulate", "num=%d" % n, "-depth", "100", "-seed", str(c.seed)], count=False)
    longest = max(len(singles), 1)
    perms = []
    for e in r.emits():
        s = tuple(e["seq"])
        if len(s) == longest:
            all_[s] = sorted(e["names"])
            perms.append(s)
    perms = sorted(set(perms))[:n]
    if not perms:
        raise CheckError("TLC gave no sequence of all headers")
    pairs = pairs if c.thorough else rng.sample(pairs, 150)
    jobs = []
    for s in singles + perms:
        jobs += [(s, "g++", True), (s, "clang++", True)]
    jobs += [(s, rng.choice(("g++", "clang++")), False) for s in pairs]

    def one(k):
        s, cxx, link = jobs[k]
        ns = all_[s]
        text = "".join("#include <xme/%s>\n" % h for h in s) + "".join("#include <%s>\n" % h for h in STD)
        text += "".join("static bool use_%s() { %s }\n" % (x, USE[x]) for x in ns)
        text += "int run_%d() {\nint n = 0;\n" % k + "".join("if(!use_%s()) { std::puts(\"%s\"); ++n; }\n" % (x, x) for x in ns) + "return n;\n}\n"
        f = c.write("headers-%d.cpp" % k, text)
        p = subprocess.run(FLAGS[cxx] + (["-c", "-o", f[:-4] + ".o"] if link else ["-fsyntax-only"]) + ["-I" + os.path.join(REPO, "include"), f], capture_output=True, text=True, errors="replace", timeout=300)
        return p.returncode, p.stderr, text

    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(jobs))))
    good = {"g++": [], "clang++": []}
    said = 0
    for k, ((s, cxx, link), (rc, err, text)) in enumerate(zip(jobs, res)):
        c.traces += 1
        c.steps += len(all_[s])
        what = "a program that includes %s (%s)" % (", then ".join(s[:3]) + (" and all the others" if len(s) > 3 else ""), cxx)
        if rc:
            said += 1
            if said == 1:
                c._control_build()
            if said <= 3:
                c.violation("%s does not compile: %s" % (what, " / ".join(l[:260] for l in err.splitlines() if "error" in l)[:900]), {"kind": "headers", "sequence": s, "compiler": cxx, "stderr": err[-4000:], "source": text}, key="header:" + s[0])
        elif link:
            good[cxx].append(k)
    for cxx, ks in good.items():
        if not ks:
            continue
        text = "#include <cstdio>\n" + "".join("int run_%d();\n" % k for k in ks) + "int main() {\n" + "".join("if(run_%d()) std::puts(\"in %d\");\n" % (k, k) for k in ks) + "std::puts(\"done\");\n}\n"
        f = c.write("headers-main-%s.cpp" % cxx[0], text)
        p = subprocess.run(FLAGS[cxx] + [f] + [c.path("headers-%d.o" % k) for k in ks] + ["-o", f[:-4], "-ltbb"], capture_output=True, text=True, errors="replace", timeout=300)
        if p.returncode:
            c._control_build()
            c.violation("translation units that include the headers cannot be linked into one program (%s): %s" % (cxx, " / ".join(l[-300:] for l in p.stderr.splitlines() if "multiple" in l or "undefined" in l or "duplicate" in l)[:900]),
                        {"kind": "link", "stderr": p.stderr[-4000:]}, key="link")
            continue
        rc, out, err = c.run(f[:-4])
        lines = out.split()
        if rc or lines != ["done"]:
            names = [x for x in lines if x in USE]
            at = [int(lines[i + 1]) for i, x in enumerate(lines[:-1]) if x == "in"]
            c.violation("in a program of many translation units (%s) wrong results from %s%s (exit %s) %s" % (cxx, ", ".join(sorted(set(names))[:8]) or "?", " where %s is included" % ", ".join(jobs[at[0]][0][:3]) if at else "", rc, err[:300]), {"kind": "use", "out": out[-3000:]}, key="use")
    c.notes["programs"] = len(jobs)
    c.sample({"headers": list(perms[0][:8]), "names": all_[perms[0]][:8]})
