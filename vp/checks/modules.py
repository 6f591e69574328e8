"""C33: the modules (spec/Modules): what importing makes available, and the other specifications' histories replayed on programs that import."""
import concurrent.futures as cf
import subprocess
from ..core import *

PARTS = {"container": "container/container.cppm", "functional": "core/functional/functional.cppm", "iterators": "core/iterators/iterators.cppm", "math": "math/math.cppm", "utility": "core/utility/utility.cppm"}
STD = ("algorithm array bit cerrno cmath compare concepts cstddef cstdint cstdio cstdlib cstring deque exception forward_list functional iterator limits list map memory new numeric "
       "optional random ranges set span string tuple type_traits unordered_map utility variant vector initializer_list chrono atomic thread mutex").split()
# a use of each name that says whether it does what it should
USES = {
 "Array": "xme::Array<int> a; a.push_back(4); a.emplace_back(5); return a.size() == 2 && a[1] == 5 && a.back() == 5;",
 "ArrayView": "int v[] = {1, 2, 3}; xme::ArrayView<int> a(v); return a.size() == 3 && a.subview(1, 2)[1] == 3;",
 "LinkedList": "xme::LinkedList<int> l; l.push_front(2); l.push_front(1); int s = 0; for(int x : l) s = 10 * s + x; return s == 12;",
 "AlignedData": "xme::AlignedData<long, 64> d; return alignof(decltype(d)) == 64;",
 "Pair": "xme::Pair<int, char> p(3, 'x'); auto [i, c] = p; return i == 3 && c == 'x';",
 "make_pair": "auto p = xme::make_pair(3, std::string(\"x\")); return get<1>(p) == \"x\";",
 "Tuple": "xme::Tuple<int, long, std::string> t{1, 2, \"3\"}; return get<2>(t) == \"3\" && std::tuple_size_v<decltype(t)> == 3;",
 "apply": "std::tuple<int, int> t(3, 4); return xme::apply([](int a, int b) { return a * b; }, t) == 12;",
 "tie": "int a = 0; long b = 0; xme::tie(a, b) = std::tuple<int, int>(1, 2); return a == 1 && b == 2;",
 "make_tuple": "auto t = xme::make_tuple(1, 2.5, 'c'); return get<1>(t) == 2.5;",
 "forward_as_tuple": "std::string s(\"abc\"); auto t = xme::forward_as_tuple(s, 4); return &get<0>(t) == &s;",
 "tuple_cat": "auto t = xme::tuple_cat(std::tuple<int, int>(1, 2), std::tuple<char>('c')); return get<2>(t) == 'c';",
 "as_bytes": "int v[] = {1, 2}; xme::ArrayView<int> a(v); return xme::as_bytes(a).size() == 2 * sizeof(int);",
 "as_writable_bytes": "unsigned v[] = {0, 2}; xme::ArrayView<unsigned> a(v); xme::as_writable_bytes(a)[0] = std::byte(255); return v[0] != 0;",
 "CAllocator": "return xme::CAllocator<std::allocator<int>> && !xme::CAllocator<int>;",
 "CTupleLike": "return xme::CTupleLike<std::tuple<int>> && !xme::CTupleLike<int>;",
 "CPairLike": "return xme::CPairLike<std::pair<int, int>> && !xme::CPairLike<std::tuple<int>>;",
 "bind_front": "return xme::bind_front([](int a, int b, int c) { return 100 * a + 10 * b + c; }, 1, 2)(3) == 123;",
 "bind_back": "return xme::bind_back([](int a, int b, int c) { return 100 * a + 10 * b + c; }, 1, 2)(3) == 312;",
 "Delegate": "int k = 4; xme::Delegate<int(int)> d = [&](int x) { return x + k; }; auto e = d; return e(5) == 9 && !!e;",
 "ReverseIterator": "int v[] = {1, 2, 3}; xme::ReverseIterator<int*> i(v + 3); ++i; return *i == 2;",
 "forward_like": "std::string s; return std::is_same_v<decltype(xme::forward_like<const int&>(s)), const std::string&>;",
 "Vector": "xme::math::Vector<int, 3> v{1, 2, 3}; auto w = v + v; return w[2] == 6 && w == v * 2;",
 "Matrix": "xme::math::Matrix<float, 2, 2> m(2.0f); return (m * m)[1][1] == 4 && (m + m)[0][0] == 4;",
 "Quaternion": "xme::math::Quaternion<double> q(1, 2, 3, 4); return q == q;",
 "perspective": "auto m = xme::math::perspective(1.0, 2.0, 0.1, 10.0); return m[1][1] > 1.8 && m[1][1] < 1.9;",
 "perspective_rh": "auto m = xme::math::perspective_rh(1.0, 2.0, 0.1, 10.0); return m[2][3] < 0;",
}
CLOSE = {"pi": "3.14159265358979", "e": "2.71828182845905", "phi": "1.61803398874989", "ln_ten": "2.30258509299405", "ln_two": "0.693147180559945", "sqrt_two": "1.41421356237310", "sqrt_three": "1.73205080756888",
         "radians(90.0)": "1.57079632679490", "degrees(1.0)": "57.2957795130823", "sin(1.0)": "0.841470984807897", "cos(1.0)": "0.540302305868140", "tan(1.0)": "1.55740772465490",
         "sec(1.0)": "1.85081571768093", "csc(1.0)": "1.18839510577812", "cot(1.0)": "0.642092615934331", "arcsin(0.5)": "0.523598775598299", "arccos(0.5)": "1.04719755119660", "arctan(0.5)": "0.463647609000806"}
for k, v in CLOSE.items():
    USES[k.split("(")[0]] = "double d = xme::math::%s - %s; return d < 1e-13 && d > -1e-13;" % (k, v)
for p, t in (("b", "bool"), ("i", "int"), ("u", "unsigned"), ("", "float"), ("d", "double")):
    for n in "234":
        USES[p + "vec" + n] = "xme::math::%svec%s v{}; v[%s] = %s(1); return std::is_same_v<std::remove_cvref_t<decltype(v[0])>, %s> && v[%s] == %s(1);" % (p, n, int(n) - 1, t, t, int(n) - 1, t)
        if p in ("", "d"):
            USES[p + "mat" + n] = "xme::math::%smat%s m(%s(3)); return std::is_same_v<std::remove_cvref_t<decltype(m[0][0])>, %s> && m[%d][%d] == %s(3);" % (p, n, t, t, int(n) - 1, int(n) - 1, t)
USES["get"] = "xme::Tuple<int, long> t{4, 5}; return xme::get<1>(t) == 5 && xme::get<0>(t) == 4;"
USES["swap"] = "xme::Tuple<int, long> t{4, 5}, u{6, 7}; xme::swap(t, u); return get<0>(t) == 6 && get<1>(u) == 5;"


class Imports:
    """Builds harnesses so that they import xme instead of including its headers: the headers they name are empty, and what comes before them imports."""
    def __init__(self, c):
        self.c, self.dir = c, c.path("modules")
        self.done, self.lock = {}, threading.Lock()
        os.makedirs(self.dir)
        inc = os.path.join(REPO, "include")
        for root, _, files in os.walk(inc):
            for f in files:
                d = os.path.join(self.dir, "shadow", os.path.relpath(root, inc))
                os.makedirs(d, exist_ok=True)
                open(os.path.join(d, f), "w").close()
        text = "".join("#include <%s>\n" % h for h in STD) + "#include <dlfcn.h>\n#include <sys/mman.h>\n#include <ucontext.h>\n#include <unistd.h>\nimport xme;\n"
        self.prelude = c.write("modules/prelude.hpp", text)
        self.objs = []

    def cc(self, args):
        r = subprocess.run(["clang++", "-std=c++20", "-O1", "-w", "-fprebuilt-module-path=" + self.dir] + args, capture_output=True, text=True, errors="replace", cwd=self.dir, timeout=600)
        return r.returncode == 0, r.stderr[-4000:]

    def interfaces(self):
        def one(name, path):
            full = "xme" if name == "xme" else "xme." + name
            pcm = os.path.join(self.dir, full + ".pcm")
            ok, log = self.cc(["-I" + os.path.join(REPO, "include"), "--precompile", os.path.join(REPO, "modules", path), "-o", pcm])
            if ok:
                ok, log = self.cc(["-c", pcm, "-o", pcm[:-4] + ".o"])
                self.objs.append(pcm[:-4] + ".o")
            if not ok:
                self.c.violation("the module %s does not compile: %s" % (full, log[-1500:]), {"kind": "build", "module": full, "log": log}, key="module:" + name)
            return ok
        with cf.ThreadPoolExecutor(5) as ex:
            ok = all(list(ex.map(lambda kv: one(*kv), PARTS.items())))
        return ok and one("xme", "xme.cppm")

    def build_all(self, jobs):
        def defines(j):
            return [f for f in j.get("flags", []) if f.startswith("-DVP_")]

        def one(j):
            src, ds = j["src"], defines(j)
            out = os.path.join(self.dir, "%s-%d" % (src[:-4], abs(hash((src, tuple(ds)))) % 10 ** 10))
            ok, log = self.cc(["-DVP_MODULE", "-I" + os.path.join(self.dir, "shadow"), "-I" + HARNESS, "-include", self.prelude] + ds + [os.path.join(HARNESS, src)] + self.objs + ["-o", out, "-ltbb"])
            if not ok:
                self.c._control_build()
                self.c.violation("a program that imports xme does not compile (%s): %s" % (" ".join([src] + ds), log[:1500]), {"kind": "build", "source": src, "flags": ds, "log": log}, key="import:" + src)
            return out if ok else None
        keys = [(j["src"],) + tuple(defines(j)) for j in jobs]
        skip = lambda k: "-DVP_NTTP" in k or k[0] == "iter.cpp" and k[1] in ("-DVP_PART=1", "-DVP_PART=2", "-DVP_PART=5")      # not offered by the modules
        todo = {}
        with self.lock:                       # variants of a build for other compilers and options come to the same
            for k, j in zip(keys, jobs):
                if k not in self.done and not skip(k):
                    todo[k] = j
        with cf.ThreadPoolExecutor(8) as ex:
            made = dict(zip(todo, ex.map(one, todo.values())))
        with self.lock:
            self.done.update(made)
        return [None if skip(k) else self.done[k] for k in keys]


def names(c, im):
    r = c.tlc("Modules", "INIT Init\nNEXT Next\nCONSTANT Most = %d\nINVARIANT Agree\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (3 if c.thorough else 2))
    if not r.completed:
        raise CheckError("TLC did not complete on Modules")
    cases = {tuple(sorted(e["imports"])): sorted(e["names"]) for e in r.emits()}

    def one(case):
        imports, ns = case
        text = "".join("#include <%s>\n" % h for h in ("cstddef", "string", "tuple", "memory", "type_traits", "utility", "cstdio"))
        text += "".join("import %s;\n" % ("xme" if m == "xme" else "xme." + m) for m in imports)
        text += "".join("static bool use_%s() { %s }\n" % (n, USES[n]) for n in ns)
        text += "int main() {\n" + "".join("if(!use_%s()) std::puts(\"%s\");\n" % (n, n) for n in ns) + "std::puts(\"done\");\n}\n"
        stem = "use_" + "_".join(imports)
        src = c.write("modules/%s.cpp" % stem, text)
        out = os.path.join(im.dir, stem)
        ok, log = im.cc([src] + im.objs + ["-o", out])
        if not ok:
            return imports, ns, None, log
        return imports, ns, c.run(out), log
    with cf.ThreadPoolExecutor(8) as ex:
        for imports, ns, res, log in ex.map(one, cases.items()):
            what = "importing " + " and ".join("xme" if m == "xme" else "xme." + m for m in imports)
            if res is None:
                bad = sorted({n for n in ns if re.search(r"error: .*'(xme::|xme::math::)?%s'" % re.escape(n), log) or "in function 'use_%s'" % n in log})
                c._control_build()
                c.violation("%s does not provide %s: %s" % (what, ", ".join(bad) or "what it should", log[:1200]), {"kind": "names", "imports": imports, "log": log}, key="names")
                continue
            rc, out, err = res
            lines = out.split()
            if rc or lines != ["done"]:
                c.violation("%s: wrong results from %s (exit %s) %s" % (what, ", ".join(lines[:-1]) or "?", rc, err[:300]), {"kind": "use", "imports": imports}, key="use")
            c.traces += 1
            c.steps += len(ns)
    c.notes["import_sets"] = len(cases)


class Unused(dict):
    """The replayed checks' notes, which would mix."""
    def setdefault(self, k, v=None):
        return v


def c33(c):
    im = Imports(c)
    if not im.interfaces():
        return
    names(c, im)
    from . import array, array_view, bind, delegate, iters, linalg, linked_list, numbers, small
    from . import tuple as tuples
    real, say = c.build_all, c.violation
    c.build_all, c.importing, notes, c.notes = im.build_all, "all" if c.thorough else "some", c.notes, Unused()
    deep, c.thorough = c.thorough, False
    c.violation = lambda msg, replay, key=None: say("in a program that imports xme: " + msg if "imports xme" not in msg else msg, replay, key)

    def one(f):
        t = time.time()
        f(c)
        c.log(f.__name__, "replayed in %.1f s" % (time.time() - t))
    with cf.ThreadPoolExecutor(3) as ex:
        todo = [ex.submit(one, f) for f in (bind.c17, array.c01, iters.c20, tuples.c13, delegate.c14, numbers.c30, linked_list.c05, array_view.c12, small.c28, linalg.c24)]
        for t in todo:
            e = t.exception()
            if e and not c.violations:
                c.notes = notes
                raise e
    c.build_all, c.violation, c.importing, c.notes, c.thorough = real, say, False, notes, deep
    c.assumptions[:] = ["clang 18 with libstdc++; names the modules do not export are not judged"]
