"""Shared machinery of the checks: building harnesses from /repo's working tree, running TLC, reporting.

A check creates one `Check`, calls its steps, and ends with `finish()`.
Exit status: 0 the property held on everything explored; 1 with a VIOLATION line; anything else is an error.
"""
import atexit, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
KNOWN = os.path.join(VERIF, "known_findings.txt")
CXX = "g++"
BASE = ["-std=c++20", "-I" + os.path.join(REPO, "include"), "-I" + HARNESS, "-w", "-fmax-errors=3"]
ASAN = ["-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]
AVX2 = ["-march=x86-64-v3", "-DXME_SIMD_ENABLE_AVX2"]
MAX_REPORTS = 5


class CheckError(Exception):
    pass


class BuildFailure(Exception):
    def __init__(self, src, log):
        super().__init__(src)
        self.src, self.log = src, log


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        self.generated = self.distinct = 0
        m = re.findall(r"(\d+) states generated(?:.*?), (\d+) distinct states found", out)
        if m:
            self.generated, self.distinct = int(m[-1][0]), int(m[-1][1])
        self.depth = 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if m:
            self.depth = int(m.group(1))
        self.completed = "Model checking completed. No error has been found." in out

    def emits(self, tag="@E "):
        key = '"' + tag
        for line in self.out.splitlines():
            if line.startswith(key):
                yield json.loads(json.loads(line)[len(tag):])


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.importing = False                 # C33: the harnesses are built to import the modules; "some" of the histories are replayed or "all"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        atexit.register(shutil.rmtree, self.work, True)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))
        self.states = self.transitions = self.traces = 0
        self.steps = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self.violations = []
        self.lock = threading.Lock()
        self.known = self._read_known()
        self.known_hit = []
        self._n = 0

    # ---- known findings -------------------------------------------------
    def _read_known(self):
        res = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == self.prop:
                    res.append((m.group(2), m.group(3)))
        return res

    # ---- files ----------------------------------------------------------
    def path(self, name):
        return os.path.join(self.work, name)

    def write(self, name, text):
        p = self.path(name)
        with open(p, "w") as f:
            f.write(text)
        return p

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- building -------------------------------------------------------
    def build(self, src, name=None, flags=(), libs=(), objs=(), link=None, cxx=CXX):
        """Compiles a harness against /repo's working tree.
        objs: further sources with flags of their own, [(source, flags)]; then src is compiled with flags to an object
        file and everything is linked with the flags `link`."""
        with self.lock:
            self._n += 1
            n = self._n
        name = name or os.path.splitext(os.path.basename(src))[0]
        out = self.path("%s-%d" % (name, n))
        full = src if os.path.isabs(src) else os.path.join(HARNESS, src)
        def cc(cmd):
            r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=600)
            if r.returncode != 0:
                raise BuildFailure(" ".join(cmd), r.stderr[-6000:])
        if link is None:
            cc([cxx] + BASE + list(flags) + [full, "-o", out] + list(libs))
            return out
        parts = []
        for i, (s, fl) in enumerate([(full, flags)] + list(objs)):
            s = s if os.path.isabs(s) else os.path.join(HARNESS, s)
            o = out + "-%d.o" % i
            cc([cxx] + BASE + list(fl) + ["-c", s, "-o", o])
            parts.append(o)
        cc([cxx] + list(link) + parts + ["-o", out] + list(libs))
        return out

    def build_all(self, jobs):
        """jobs: list of dicts with the arguments of build; builds in parallel.
        A harness uses only the public interface, so one that stops compiling is a break of that interface."""
        def one(j):
            try:
                return self.build(**j)
            except BuildFailure as e:
                return e
        with ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(one, jobs))
        for r, j in zip(res, jobs):
            if isinstance(r, BuildFailure):
                self._control_build()
                self.violation("the public interface no longer compiles in %s" % j["src"],
                               {"kind": "build", "command": r.src, "log": r.log}, key="build:" + j["src"])
        return [None if isinstance(r, BuildFailure) else r for r in res]

    def _control_build(self):
        p = self.write("control.cpp", "#include <vector>\n#include <string>\n#include <cstdio>\n"
                       "int main(){std::vector<std::string> v(3,\"x\");std::puts(v[0].c_str());}\n")
        r = subprocess.run([CXX, "-std=c++20"] + ASAN + [p, "-o", self.path("control")], capture_output=True)
        if r.returncode != 0:
            raise CheckError("the compiler does not work: " + r.stderr.decode(errors="replace")[-500:])

    # ---- running --------------------------------------------------------
    def run(self, binary, args=(), stdin="", timeout=300, env=None, stdin_path=None):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1"
        e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:print_stacktrace=0"
        if env:
            e.update(env)
        try:
            if stdin_path:
                with open(stdin_path, "rb") as f:
                    r = subprocess.run([binary] + [str(a) for a in args], stdin=f, capture_output=True,
                                       timeout=timeout, env=e)
            else:
                r = subprocess.run([binary] + [str(a) for a in args], input=stdin.encode(), capture_output=True,
                                   timeout=timeout, env=e)
            return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as x:
            return -999, (x.stdout or b"").decode(errors="replace"), "TIMEOUT after %ss" % timeout

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, extra=(), timeout=800, heap=None, ok_rc=(0,), count=True):
        """Runs TLC on spec/<module>.tla with the given configuration text."""
        with self.lock:
            self._n += 1
            n = self._n
        d = self.path("tlc-%d" % n)
        os.makedirs(d)
        cfgp = os.path.join(d, module + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -Djava.io.tmpdir=%s" % (heap or "6g", d)
        cmd = ["tlc", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"),
               "-config", cfgp] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        outp = os.path.join(d, "out")
        try:
            with open(outp, "wb") as f:
                r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=d, timeout=timeout, env=e)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        out = open(outp, errors="replace").read()
        shutil.rmtree(os.path.join(d, "meta"), True)
        res = TlcResult(rc, out, time.time() - t)
        if ok_rc is not None and rc not in ok_rc:
            lines = [l for l in out.splitlines() if not l.startswith('"@')]
            raise CheckError("TLC failed on %s (rc %d):\n%s" % (module, rc, "\n".join(lines[-60:])))
        if count:
            with self.lock:
                self.states += res.distinct
                self.transitions += res.generated
        return res

    # ---- reporting ------------------------------------------------------
    def sample(self, s):
        with self.lock:
            if len(self.samples) < 6:
                self.samples.append(s)

    def violation(self, msg, replay, key=None):
        """Records a confirmed violation. `replay` is what reproduces it."""
        with self.lock:
            for k, d in self.known:
                if key and k == key:
                    if k not in self.known_hit:
                        self.known_hit.append(k)
                        print("KNOWN-FINDING: property=%s %s" % (self.prop, d), flush=True)
                    return
            body = {"property": self.prop, "message": msg, "seed": self.seed, "tier": self.tier, "replay": replay}
            text = json.dumps(body, indent=1, default=str)
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha1((msg + text).encode()).hexdigest()[:10]))
            with open(p, "w") as f:
                f.write(text)
            self.violations.append(msg)
            if len(self.violations) <= MAX_REPORTS:
                print("violation: " + msg[:3000], flush=True)
                print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)

    def finish(self, extra=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"],
               "implementation_steps_checked": self.steps}
        cov.update(self.notes)
        if extra:
            cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log("states=%d transitions=%d traces=%d steps=%d violations=%d" % (
            self.states, self.transitions, self.traces, self.steps, len(self.violations)))
        sys.exit(1 if self.violations else 0)


class Enough(Exception):
    """A violation makes going on pointless (the implementation hangs)."""


def main(check_fn, prop, level="model_checking"):
    """Runs a check function; errors of the machinery end with status 2."""
    import traceback
    c = Check(prop, level)
    try:
        check_fn(c)
    except SystemExit:
        raise
    except Enough:
        c.finish()
    except CheckError as e:
        print("ERROR of the check:", e, flush=True)
        if c.violations:
            c.finish()
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        if c.violations:
            c.finish()
        sys.exit(2)
    if not c.violations and c.traces == 0:
        print("ERROR of the check: nothing was validated against the implementation")
        sys.exit(2)
    c.finish()
