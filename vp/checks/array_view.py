"""C12: array views (spec/ArrayView)."""
import random
from ..core import *
from ..graph import Graph, replay_scripts

TYPES = {"int": ("int", 4), "byte": ("unsigned char", 1), "string": ("std::string", 32), "trio": ("Trio", 6), "wide": ("Wide", 96)}


def c12(c):
    rng = random.Random(c.seed + 12)
    n = 5 if c.thorough else 4
    kinds = list(TYPES) if c.thorough else ["int", "byte", "trio", "string"]
    jobs = [dict(src="array_view.cpp", name="av_" + k, flags=(ASAN if k != "trio" else ["-O2", "-g1", "-fsanitize=address"]) + ["-DVP_KIND=Driver<%s>().run(); return 0;" % TYPES[k][0]]) for k in kinds]
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(c.build_all, jobs)
        r = c.tlc("ArrayView", "INIT Init\nNEXT Next\nCONSTANTS MaxN = %d\nVIEW state\nINVARIANT Inside\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % n)
        bins = fb.result()
    if not r.completed:
        raise CheckError("TLC did not complete on ArrayView")
    emits = list(r.emits())
    c.notes["model_constants"] = {"MaxN": n}
    for k, b in zip(kinds, bins):
        if not b:
            continue
        size = TYPES[k][1]
        g = Graph(emits, [0, -1, 0, False, False], (lambda a: a["op"] != "wbyte") if k == "string" else (lambda a: a["op"] != "wbyte" or a["x"][1] == 0) if k == "byte" else None)
        sc = []
        for w in g.walks(300, rng):
            ls, xs, mem, nxt = ["reset"], ["ok"], {}, 100
            for e in w:
                f, a, t = g.edges[e]
                x = list(a["x"])
                if "bytes" in a:
                    if a["op"] == "bytes":
                        o, cells = a["bytes"]
                        xs.append("%d %d" % (o * size if o >= 0 else -1, cells * size))
                    else:
                        cell, j = a["bytes"]
                        x[1] = j * (size - 1)
                        xs.append("%d" % (cell * size + x[1]))
                else:
                    wrote = []
                    if a["op"][0] == "w" and a["op"] not in ("wbyte",):
                        nxt = 100 + (nxt - 99) % 100 + 1
                        while nxt in mem.values():
                            nxt = 100 + (nxt - 99) % 100 + 1
                        x.append(nxt)
                        wrote = sorted(a["wrote"])
                        for i in wrote:
                            mem[i] = nxt
                    elif a["op"] in ("carr", "stdarr", "ccarr", "cstdarr", "carrdyn", "stdarrdyn", "vector", "xarray", "span", "cvector", "cxarray", "cspan"):
                        mem = {}
                    xs.append("[%s]@%d %s {%s}" % (",".join(map(str, a["cells"])), a["at"], "s" if a["st"] else "d", ",".join("%d:%d" % (i, mem[i]) for i in wrote)))
                ls.append(" ".join([a["op"]] + list(map(str, x))))
            sc.append((ls, xs))
        c.log(k, "edges", len(g.edges), "walks", len(sc))
        replay_scripts(c, sc, b, "ArrayView<%s>" % k, [k])
        if not c.samples:
            c.sample({"element": k, "history": sc[0][0][:12], "expected": sc[0][1][:12]})
    c.notes["operations"] = dict(g.ops)
