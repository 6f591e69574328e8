"""C17: bound calls (spec/Bind)."""
import random
import concurrent.futures as cf
from ..core import *
from ..graph import Graph, replay, replay_scripts, key


def c17(c):
    rng = random.Random(c.seed + 17)
    combos = [(k, f) for k in range(3 if c.importing and not c.thorough else 4) for f in (1, 0)]
    D = 3 if c.thorough else 2
    jobs = [dict(src="bind.cpp", name="bind", flags=ASAN + ["-O1" if k == 1 else "-O0", "-DVP_K=%d" % k, "-DVP_FRONT=%d" % f]) for k, f in combos]
    jobs += [dict(src="bind.cpp", name="bindv", cxx="clang++", flags=["-std=c++2b", "-D__cpp_explicit_this_parameter=202110L", "-g1", "-fsanitize=address",
                  "-DVP_NTTP", "-DVP_K=%d" % k, "-DVP_FRONT=%d" % f]) for k, f in ((2, 1), (2, 0), (0, 1), (1, 0))]
    dof = {0: 2, 1: 3, 2: D, 3: 3}

    def spec(k, f):
        r = c.tlc("Bind", "INIT Init\nNEXT Next\nCONSTANTS K = %d D = %d Front = %s Long = %d\nVIEW View\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (
            k, dof[k], "TRUE" if f else "FALSE", 2 if k < 2 else 1 if k == 2 or c.thorough else 0))
        if not r.completed:
            raise CheckError("TLC did not complete on Bind")
        return list(r.emits())
    with cf.ThreadPoolExecutor(5) as ex:
        fb = ex.submit(c.build_all, jobs)
        specs = dict(zip(combos, ex.map(lambda kf: spec(*kf), combos)))
        bins = fb.result()

    def enc(a, f):
        if a["op"] == "call":
            return "call %s %s _%s" % (a["how"], a["x"][0], "".join(a["x"][1]))
        return " ".join([a["op"], a["how"]] + list(map(str, a["x"]))).replace("  ", " ")

    def expect(a, t):
        if a["op"] == "call":
            return " ".join([a["r"][0], str(a["r"][1])] + ["%d%s" % tuple(x) for x in a["r"][2]])
        return " ".join(["src"] + list(map(str, a["r"]))) if a["op"] == "bind" else "ok"

    def expect_v(a, t):
        return "?" + "".join(" %d%s" % tuple(x) for x in a["r"][2]) if a["op"] == "call" else expect(a, t)
    for i, (k, f) in enumerate(combos):
        init = [dict(v=[1] * k, n=0, ref=False)] * 2 + [1]
        what = "%s with %d bound" % ("bind_front" if f else "bind_back", k)
        g = Graph(specs[(k, f)], init)
        ws = g.walks(400, rng)
        if bins[i]:
            replay(c, g, ws, bins[i], enc, expect, what, ["copy", dof[k]])
            gm = Graph(specs[(k, f)], init, lambda a: a["op"] != "copy" and not (a["op"] == "bind" and a["how"] != "r"))
            replay(c, gm, gm.walks(400, rng), bins[i], enc, expect, what + " (move-only)", ["move", dof[k]])
            # functions and member functions: the same calls, which change nothing
            seen, lines = set(), []
            for fr, a, t in g.edges:
                if a["op"] == "call" and a["how"] == "a" and not g.views[fr][0]["ref"]:
                    v = g.views[fr][0]["v"]
                    q = (key(v), key(a["x"]))
                    if q in seen or 0 in v:
                        continue
                    seen.add(q)
                    for kind in ("fn", "member", "fnref"):
                        if kind == "fnref" and a["x"][0] != "l":
                            continue
                        lines.append((["reset", "values " + " ".join(map(str, v)) if v else "values", "other %s %s _%s" % (kind, a["x"][0], "".join(a["x"][1]))],
                                      ["ok", "ok", " ".join(str(x[0]) for x in a["r"][2])]))
            replay_scripts(c, lines, bins[i], what + " (functions)", ["copy", dof[k]])
        c.log(what, "edges", len(g.edges), "walks", len(ws))
        c.notes.setdefault("edges", {})[what] = len(g.edges)
        if not c.samples and k == 2:
            c.sample({"what": what, "history": [g.edges[e][1] for e in ws[0][:6]]})
        for (k2, f2), b in zip(((2, 1), (2, 0), (0, 1), (1, 0)), bins[len(combos):]):
            if (k, f) == (k2, f2) and b:
                gv = Graph(specs[(k, f)], init, lambda a: not (a["op"] in ("copy", "move") and a["how"] == "assign") and not (a["op"] == "bind" and a["how"] in ("l", "c")))
                replay(c, gv, gv.walks(400, rng), b, enc, expect_v, what + " (function as a template argument)", ["copy", dof[k]])
