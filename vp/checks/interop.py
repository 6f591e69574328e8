"""C41, C42, C43: the library's sequences under the algorithms and views of std, std::ranges and range-v3 (spec/Interop),
and what IContainer adds to containers (spec/Facade)."""
import random
from ..core import *
from ..graph import Graph, replay, replay_scripts


def match(x, g):
    """the harness answers "<how many agreed> <result>"; at least one holder has to have taken part"""
    if x in ("ok", "bye"):
        return x == g
    n, _, rest = g.partition(" ")
    return n.isdigit() and int(n) > 0 and rest.strip() == x


def c41(c):
    jobs = []
    for cxx in ("clang++", "g++") if c.thorough else ("clang++",):
        for e in ("int", "Word"):
            jobs.append(dict(src="interop.cpp", cxx=cxx, flags=["-O0", "-w", "-DELEMENT=" + e, "-fsanitize=address"], libs=["-ltbb"]))
    if not c.thorough:
        jobs.append(dict(src="interop.cpp", flags=["-O0", "-w", "-DELEMENT=int", "-fsanitize=address"], libs=["-ltbb"]))
    with ThreadPoolExecutor(max_workers=2) as ex:
        built = ex.submit(c.build_all, jobs)
        r = c.tlc("Interop", "INIT Init\nNEXT Next\nCONSTANTS Len0 = %d Vals = %d Long = {%s}\nINVARIANTS Laws Emit\nCHECK_DEADLOCK FALSE\n" % ((5, 3, "17, 40, 100, 300") if c.thorough else (4, 3, "17, 40, 100")))
        if not r.completed:
            raise CheckError("TLC did not complete on Interop")
        cases = list(r.emits())
        bins = built.result()
    c.notes["cases"] = len(cases)
    c.notes["algorithms and views"] = len({e["op"] for e in cases})
    scripts = []
    for e in cases:
        line = "case %d %d %s %d %d %s" % (e["need"], e["writes"], e["op"], e["x"], e["k"], " ".join(map(str, e["s"])))
        scripts.append((["reset", line.strip()], ["ok", ("%d | %s" % (e["ans"], " ".join(map(str, e["after"])))).strip()]))
    c.sample({"case": scripts[-1]})
    for b, j in zip(bins, jobs):
        replay_scripts(c, scripts, b, "algorithms and views over sequences of %s (%s)" % (j["flags"][2][10:], j.get("cxx", CXX)), match=match, timeout=300)


def c42(c):
    jobs = [dict(src="facade.cpp", flags=["-O0", "-fsanitize=address,undefined"]), dict(src="facade.cpp", cxx="clang++", flags=["-O2"])]
    bins = c.build_all(jobs)
    r = c.tlc("Facade", "INIT Init\nNEXT Next\nCONSTANTS Len0 = %d\nINVARIANTS Laws Emit\nCHECK_DEADLOCK FALSE\n" % (7 if c.thorough else 4))
    if not r.completed:
        raise CheckError("TLC did not complete on Facade")
    scripts = []
    for e in r.emits():
        a = e["ans"]
        scripts.append((["reset", "ask %s %d %s %d %d" % (" ".join(map(str, e["c"])), e["as"], e["op"], e["k"], e["n"])],
                        ["ok", " ".join(["offered" if a["offered"] else "no", str(a["value"]), str(a["at"]), "w" if a["writable"] else "r", "|", *map(str, e["after"])])]))
    c.notes["cases"] = len(scripts)
    c.sample({"case": scripts[-1]})
    for b, name in zip(bins, ("gcc", "clang")):
        replay_scripts(c, scripts, b, "the interface IContainer gives to a container (%s)" % name)


KINDS = ["array", "words", "list", "heap", "delegate", "bound", "tuple", "aligned", "queue", "raw", "system", "numbers", "view"]


def c43(c):
    rng = random.Random(c.seed + 43)
    bins = c.build_all([dict(src="threads.cpp", flags=["-O1", "-g1", "-fsanitize=thread"], libs=["-ltbb", "-ldl"])] +
                       ([dict(src="threads.cpp", cxx="clang++", flags=["-O0", "-g1", "-fsanitize=thread"], libs=["-ltbb", "-ldl"])] if c.thorough else []))
    graphs = {}
    for kind in ("plain", "heap", "numbers"):
        r = c.tlc("Threads", "INIT Init\nNEXT Next\nCONSTANTS Kind = \"%s\" Max = %d\nVIEW Seen\nINVARIANT Independent\nPROPERTY Untouched\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (kind, 3 if c.thorough else 2))
        if not r.completed:
            raise CheckError("TLC did not complete on Threads")
        graphs[kind] = Graph(r.emits(), [[2, 2], [2, 2]] if kind == "numbers" else [[], []])
        c.notes["transitions, " + kind] = len(graphs[kind].edges)
    if bins[0]:
        # the instrument itself: a static counter in an operation has to be noticed
        rc, out, err = c.run(bins[0], ["control"], "reset\n1 add 1\n2 add 1\n1 add 2\nend\n")
        if "same memory" not in out:
            raise CheckError("the thread sanitizer does not report a race: " + (out + err)[-300:])
    for kind in KINDS:
        g = graphs["heap" if kind == "heap" else "numbers" if kind in ("numbers", "view") else "plain"]
        ws = g.walks(60, rng)
        for b in bins:
            replay(c, g, ws, b, lambda a, f: "%d %s %d" % (a["t"], a["op"], a["x"]), lambda a, t: " ".join(map(str, a["says"])),
                   "two threads with a %s each and a shared one" % kind, [kind])
    c.sample({"history": [g.edges[e][1] for e in ws[0][:8]]})
