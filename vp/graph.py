"""Replaying a TLC state graph on the implementation.

A specification emits each transition as "@E {f: view, a: action, t: view}".  `Graph` covers all transitions
by walks from the initial state; `replay` runs them on a harness and compares what it prints, step by step,
with what the specification expects.
"""
import json, collections
from concurrent.futures import ThreadPoolExecutor
from .core import Enough


def key(v):
    return json.dumps(v, sort_keys=True, separators=(",", ":"))


class Graph:
    def __init__(self, emits, init, keep=None):
        self.views, self.ids = [], {}
        self.edges = []           # (from, action, to)
        self.out = collections.defaultdict(list)
        self.init = self.node(init)
        self.ops = collections.Counter()
        seen = set()
        for e in emits:
            if keep and not keep(e["a"]):
                continue
            f, t = self.node(e["f"]), self.node(e["t"])
            k = (f, key(e["a"]), t)
            if k in seen:
                continue
            seen.add(k)
            self.out[f].append(len(self.edges))
            self.edges.append((f, e["a"], t))
            self.ops[e["a"]["op"]] += 1

    def node(self, v):
        k = key(v)
        n = self.ids.get(k)
        if n is None:
            n = self.ids[k] = len(self.views)
            self.views.append(v)
        return n

    def walks(self, max_len=300, rng=None):
        """Walks from the initial state that together take every edge reachable from it."""
        unc = {n: list(es) for n, es in self.out.items()}
        if rng:
            for es in unc.values():
                rng.shuffle(es)
        for n, es in unc.items():                 # loops last, so that they are taken first
            es.sort(key=lambda e: self.edges[e][2] == n)
        succ = {}                                 # one edge to each successor
        for n, es in self.out.items():
            d = succ[n] = {}
            for e in es:
                d.setdefault(self.edges[e][2], e)
            d.pop(n, None)
        # reachable part
        reach, todo = {self.init}, [self.init]
        while todo:
            n = todo.pop()
            for t in succ.get(n, ()):
                if t not in reach:
                    reach.add(t); todo.append(t)
        left = sum(len(unc[n]) for n in unc if n in reach)
        res = []
        while left:
            walk, cur = [], self.init
            while len(walk) < max_len and left:
                if unc.get(cur):
                    e = unc[cur].pop()
                    left -= 1
                    walk.append(e)
                    cur = self.edges[e][2]
                    continue
                # nearest node with an uncovered edge
                prev, q, hit = {cur: None}, collections.deque([cur]), None
                while q:
                    n = q.popleft()
                    if unc.get(n):
                        hit = n
                        break
                    for t, e in succ.get(n, {}).items():
                        if t not in prev:
                            prev[t] = e
                            q.append(t)
                if hit is None:
                    break
                path = []
                while hit != cur:
                    e = prev[hit]
                    path.append(e)
                    hit = self.edges[e][0]
                walk.extend(reversed(path))
                cur = self.edges[walk[-1]][2] if walk else cur
            if not walk:
                break
            res.append(walk)
        return res


def thinned(c, runs):
    """Programs that import the modules replay every fourth history in quick runs."""
    return runs[::4] if c.importing == "some" and len(runs) > 16 else runs


def replay(c, graph, walks, binary, encode, expect, what, args=(), **kw):
    """Runs the walks on `binary`.  encode(action, from_view) -> script line; expect(action, to_view) -> output line.
    Each walk begins with the line "reset", answered by "ok"."""
    scripts = []
    for w in thinned(c, walks):
        ls, xs = ["reset"], ["ok"]
        for e in w:
            f, a, t = graph.edges[e]
            ls.append(encode(a, graph.views[f]))
            xs.append(expect(a, graph.views[t]))
        scripts.append((ls, xs))
    return replay_scripts(c, scripts, binary, what, args, **kw)


def replay_scripts(c, scripts, binary, what, args=(), shards=8, timeout=150, canon=str.strip, env=None, match=None):
    """scripts: list of (lines, expected output lines); each starts with "reset" and is independent of the others."""
    if binary is None:
        return False
    if match is None:
        match = lambda x, g: x == g
    shards = max(1, min(shards, len(scripts)))
    groups = [scripts[i::shards] for i in range(shards)]

    def run_group(ss):
        script = [l for ls, _ in ss for l in ls] + ["end"]
        exp = [x for _, xs in ss for x in xs] + ["bye"]
        rc, out, err = c.run(binary, args, "\n".join(script) + "\n", timeout, env)
        got = out.splitlines()
        for i, x in enumerate(exp):
            g = canon(got[i]) if i < len(got) else None
            if g is None or not match(x, g):
                return (x, g, rc, err, script, i)
        if rc != 0:
            return ("exit status 0", "exit status %s" % rc, rc, err, script, len(script) - 1)
        return None

    with ThreadPoolExecutor(max_workers=shards) as ex:
        res = list(ex.map(run_group, groups))
    with c.lock:
        c.traces += len(scripts)
        c.steps += sum(len(ls) for ls, _ in scripts)
    ok = True
    for r in [r for r in res if r][:3]:
        x, g, rc, err, script, line = r
        # confirm on the history alone; fall back to everything before it
        start = line
        while start > 0 and script[start] != "reset":
            start -= 1
        confirmed = None
        for one in (script[start:line + 1], script[:line + 1]):
            if one[-1] != "end":
                one = one + ["end"]
                n = len(one) - 2
            else:
                n = len(one) - 1
            rc2, out2, err2 = c.run(binary, args, "\n".join(one) + "\n", min(timeout, 60), env)
            got2 = out2.splitlines()
            g2 = canon(got2[n]) if n < len(got2) else None
            if g2 is None or not match(x, g2) or rc2 != 0:
                confirmed = (one, n, g2, rc2, err2)
                break
        if not confirmed and rc != 0:
            # it died, and perhaps took answers with it: the same whole script must die again
            rc2, out2, err2 = c.run(binary, args, "\n".join(script) + "\n", timeout, env)
            if rc2 != 0:
                confirmed = (script, line, None, rc2, err2)
        if not confirmed:
            c.log("unconfirmed mismatch, ignored:", what, x, g)
            c.notes["unconfirmed"] = c.notes.get("unconfirmed", 0) + 1
            continue
        one, n, g2, rc2, err2 = confirmed
        ok = False
        c.violation("%s: in the history `%s` the implementation gave %s, the specification requires %s%s" % (
            what, " ; ".join(one[max(0, n - 8):n + 1]), repr(g2), repr(x),
            (" [exit %s] %s" % (rc2, err2[:600])) if rc2 else ""),
            {"kind": "replay", "what": what, "harness_args": list(map(str, args)), "script": one[-400:],
             "expected": x, "got": g2, "exit": rc2, "stderr": err2[:3000]}, key="replay:" + what)
        if rc2 == -999:
            raise Enough()
    return ok
