"""Validating recorded executions with a trace specification."""
import json, os
from concurrent.futures import ThreadPoolExecutor
from .core import CheckError, Enough


def record(c, binary, scripts, args=(), shards=8, timeout=150, env=None):
    """Runs the histories on `binary`, which writes its events to the file given as its last argument.
    Returns a list of (trace file, script lines); a run that dies is a violation."""
    if c.importing == "some":
        scripts = scripts[::4]
    shards = max(1, min(shards, len(scripts)))
    groups = [scripts[i::shards] for i in range(shards)]

    def one(i):
        lines = [l for s in groups[i] for l in s] + ["end"]
        with c.lock:
            c._n += 1
            p = c.path("trace-%d.json" % c._n)
        rc, out, err = c.run(binary, list(args) + [p], "\n".join(lines) + "\n", timeout, env)
        return p, lines, rc, out, err

    with ThreadPoolExecutor(max_workers=shards) as ex:
        res = list(ex.map(one, range(shards)))
    good = []
    for p, lines, rc, out, err in res:
        got = out.splitlines()
        if rc != 0 or not got or got[-1] != "bye":
            at = min(len(got), len(lines) - 1)
            start = at
            while start > 0 and lines[start] != "reset":
                start -= 1
            part = lines[start:at + 1]
            if part[-1] != "end":
                part = part + ["end"]
            q = p + ".again"
            rc2, out2, err2 = c.run(binary, list(args) + [q], "\n".join(part) + "\n", min(timeout, 60), env)
            if rc2 == 0 and out2.strip().endswith("bye"):
                part = lines
                rc2, out2, err2 = c.run(binary, list(args) + [q], "\n".join(part) + "\n", timeout, env)
            if rc2 == 0 and out2.strip().endswith("bye"):
                c.log("unconfirmed crash, ignored")
                c.notes["unconfirmed"] = c.notes.get("unconfirmed", 0) + 1
                good.append((q, part, out2))
                continue
            c.violation("the implementation dies (exit %s) in the history `%s`: %s" % (rc2, " ; ".join(part[-8:]), err2[:700]),
                        {"kind": "crash", "args": list(args), "script": part[-400:], "exit": rc2, "stderr": err2[:3000]},
                        key="crash")
            if rc2 == -999:
                raise Enough()
            continue
        bad = [i for i, l in enumerate(got) if l.startswith("INCONSISTENT")]
        if bad:
            c.violation("the accessors disagree after `%s`: %s" % (lines[bad[0]], got[bad[0]]),
                        {"kind": "accessors", "script": lines[max(0, bad[0] - 50):bad[0] + 1]}, key="accessors")
        good.append((p, lines, out))
    return good


def validate(c, module, consts, traces, what, args=(), workers=8, timeout=800, heap="3g", keep=None):
    """Checks each recorded trace with spec/<module>.tla; consts: text of the CONSTANTS section."""
    def one(t):
        p, lines, _ = t
        evs = open(p).read().splitlines()
        if keep:
            evs = [e for e in evs if keep(e)]
            open(p, "w").write("\n".join(evs) + "\n")
        if not evs:
            raise CheckError("empty trace for " + module)
        r = c.tlc(module, "INIT Init\nNEXT Next\n%sPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n" % consts,
                  env={"VP_TRACE": p}, timeout=timeout, heap=heap)
        return r, evs, lines

    with ThreadPoolExecutor(max_workers=workers) as ex:
        res = list(ex.map(one, traces))
    ok = True
    for r, evs, lines in res:
        if not r.completed:
            raise CheckError("trace validation did not complete on %s:\n%s" % (module, r.out[-3000:]))
        hist = sum(1 for e in evs if e.startswith('["reset"'))
        with c.lock:
            c.traces += hist
            c.steps += len(evs)
        rej = list(r.emits("@R "))
        for x in rej[:3]:
            ok = False
            i = x["l"] - 1
            s = i
            while s > 0 and not evs[s].startswith('["reset"'):
                s -= 1
            c.violation("%s: %s: rejected event %s in the call %s%s (state before: %s)" % (
                what, x.get("why"), json.dumps(x.get("event")), x.get("call"), x.get("args", ""), json.dumps(x.get("before"))[:600]),
                {"kind": "trace", "module": module, "what": what, "harness_args": list(map(str, args)),
                 "rejection": x, "events": evs[s:i + 1][-300:]}, key="trace:%s:%s:%s" % (what, x.get("call"), x.get("why")))
    return ok


def merge(c, traces, groups=8):
    """Concatenates traces of one specification, so that fewer TLC runs validate them."""
    res = []
    for i in range(min(groups, len(traces))):
        with c.lock:
            c._n += 1
            p = c.path("merged-%d.json" % c._n)
        lines = []
        with open(p, "w") as f:
            for q, l, _ in traces[i::groups]:
                f.write(open(q).read())
                lines += l
        res.append((p, lines, ""))
    return res
