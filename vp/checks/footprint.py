"""C38: operations touch and cost no more than documented (spec/Footprint), and the queue's never wait (spec/WaitFree)."""
import random
from ..core import *
from ..graph import Graph, replay, replay_scripts

OPT = ["-O2", "-march=x86-64-v3"]


def within(x, g):
    """x: what the specification allows, as the text of a JSON list; g: what the harness saw."""
    n, m, may, most, allocs, cmp, grow, total = json.loads(x)
    w = g.split()
    if len(w) < 5 or w[:2] != [str(n), str(m)]:
        return False
    a, k, t = map(int, w[2:5])
    touched = set(w[5:])
    if allocs >= 0 and a > allocs or cmp >= 0 and k > cmp or total >= 0 and t > total:
        return False
    if most >= 0 and not (grow and a) and len(touched) > most:
        return False
    return bool(grow and a) or touched <= {"%d:%d" % tuple(e) for e in may}


def expected(kind, growth):
    def f(a, t):
        n, m = t
        if kind == "view" and not n:
            m = 99                                      # where an empty view begins does not matter
        return json.dumps([n, m, a["may"], a["most"], a["allocs"], a["cmp"], a["grow"], growth])
    return f


def match(x, g):
    return x == g if not x.startswith("[") else within(x, g)


def c38(c):
    rng = random.Random(c.seed + 38)
    bins = c.build_all([dict(src="footprint.cpp", flags=["-O0"]), dict(src="footprint.cpp", cxx="clang++", flags=OPT)])
    sizes = {"list": (6, 9), "array": (5, 8), "heap": (200, 400), "view": (9, 9), "queue": (9, 9)}
    for kind, s in sizes.items():
        r = c.tlc("Footprint", "INIT Init\nNEXT Next\nCONSTANTS Kind = \"%s\" Max = %d Cap = 4\nVIEW Seen\nINVARIANT Laws\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (kind, s[c.thorough]))
        if not r.completed:
            raise CheckError("TLC did not complete on Footprint")
        g = Graph(r.emits(), [9, 0] if kind == "view" else [0, 0])
        c.notes["transitions of a " + kind] = len(g.edges)
        growth = 2 * s[c.thorough].bit_length() + 8 if kind == "heap" else -1          # storage grows by a factor
        for order in ("up", "down", "random") if kind == "heap" else ("random",):
            ws = g.walks(600 if kind == "heap" else 120, rng)
            val = {"up": lambda f: f[0] + 1, "down": lambda f: -f[0], "random": lambda f: rng.randint(-50, 50)}[order]
            for b, name in zip(bins, ("gcc", "clang")):
                replay(c, g, ws, b, lambda a, f: " ".join(map(str, [a["op"], *a["x"], val(f)])), expected(kind, growth),
                       "the elements a %s touches (%s, %s)" % (kind, order, name), [kind], match=match)
        if kind == "queue":
            c.sample({"history": [g.edges[e][1] for e in ws[0][:8]]})


def outcome(o):
    return "|".join([str(o[0]), ",".join(map(str, o[1])), ",".join(map(str, o[2]))])


def c39(c):
    builds = [dict(src="waitfree.cpp", flags=["-O1"]), dict(src="waitfree.cpp", cxx="clang++", flags=["-O2", "-DNDEBUG"]), dict(src="waitfree.cpp", flags=["-O2", "-DNDEBUG"])]
    bins = c.build_all(builds)
    rng, n = random.Random(c.seed + 39), 0
    for N, len2 in ((2, True), (4, True), (8, True)) if not c.thorough else ((2, False), (4, False), (8, True)):
        r = c.tlc("WaitFree", "INIT Init\nNEXT Next\nCONSTANTS N = %d Len2 = %s\nINVARIANTS Laws Emit\nCHECK_DEADLOCK FALSE\n" % (N, str(len2).upper()))
        if not r.completed:
            raise CheckError("TLC did not complete on WaitFree")
        cases = list(r.emits())
        n += len(cases)
        for j, b in enumerate(bins):
            scripts = []
            for e in cases:
                for t in "lR":
                    for s in "sd":
                        if (c.thorough and j != 2) or rng.randrange({2: 1, 4: 4, 8: 24}[N]) == 0:
                            may = sorted({outcome(o) for o in e["may"]})
                            scripts.append((["reset", " ".join(map(str, ["case", t + s + str(N), e["off"], e["r"], e["outer"], *e["inner"]]))],
                                            ["ok", " ".join([outcome(e["first"]), outcome(e["last"]), *may])]))
            def among(x, g):
                x, g = x.split(" "), g.split(" ")
                return x == g or len(g) > 2 and x[:2] == g[:2] and set(g[2:]) <= set(x[2:])
            if not replay_scripts(c, scripts, b, "an operation of the queue stopped at any instruction (build %d)" % j, match=among, timeout=600):
                return
    c.notes["cases"] = n
    c.sample({"case": cases[0]})
    c.assumptions.append("each side is stopped between machine instructions of this processor, memory being sequentially consistent (weaker orders: C09)")


def c40(c):
    r = c.tlc("Throwing", "INIT Init\nNEXT Next\nINVARIANTS Laws Emit\nCHECK_DEADLOCK FALSE\n")
    if not r.completed:
        raise CheckError("TLC did not complete on Throwing")
    needs = {"copy": "CA", "move": "MA", "assign": "CA", "like": "CA", "likemove": "MA", "swap": "SW", "freeswap": "SW", "make": "CC", "makemove": "MC", "bind": "CC",
             "bindmove": "MC", "back": "CC", "backmove": "MC", "find": "EQ", "findrange": "EQ", "reverse": "SW", "reverserange": "SW",
             "apply": "CL", "call": "CL", "callback": "CL", "applyconst": "CC_", "callconst": "CC_", "backconst": "CC_", "applymove": "CM", "callmove": "CM", "backcallmove": "CM", "callconstmove": "CCM", "backconstmove": "CCM", "delegate": "CALL"}
    rows = {}
    for e in r.emits():
        op, n = e["op"], len(e["kinds"])
        flag = needs[op]
        parts = ", ".join("E<%s, %d>" % ({"none": "0", "only": flag, "others": "ALL & ~(%s)" % flag}[k], i + 1) for i, k in enumerate(e["kinds"]))
        for u in ["UseTuple"] + (["UsePair"] if n == 2 and not op.startswith(("b", "call", "apply")) else []):
            rows.setdefault("%s<%s, %s>" % (op, u, parts), []).append(e)
    names = sorted(rows)
    c.notes["operations on parts"] = len(names)
    shards = [names[j::8] for j in range(8)]
    jobs = []
    for j, ns in enumerate(shards):
        src = c.write("throwing_%d.cpp" % j, "#include \"throwing.hpp\"\nstatic std::string (*const table[])(int) = {\n%s\n};\n"
            "int main() { for(vp::Script in; in.next();) { if(in.op() == \"end\") break; if(in.op() == \"reset\") { std::puts(\"ok\"); continue; }"
            " living = 0; auto r = table[in.num(1)](in.num(2)); std::puts((r + \" \" + std::to_string(living)).c_str()); } std::puts(\"bye\"); }\n" % ",\n".join(ns))
        for cxx in ("g++", "clang++") if c.thorough or j % 2 == 0 else ("g++",):
            jobs.append((j, dict(src=src, flags=["-O0", "-w"], libs=["-ltbb"], cxx=cxx)))

    def match(x, g):
        if not x.startswith("{"):
            return x == g
        e, w = json.loads(x), g.split()
        if len(w) != 4 or w[3] != "0" or (w[0][0] == "n") not in e["noexcept"] or (w[0][1:] == "t") != e["threw"]:
            return False
        lists = (([] if w[1] == "-" else w[1].split(",")), w[2].split(","))
        return all(len(l) == len([y for y in want if y]) and all(int(v) in y for v, y in zip(l, want)) for l, want in zip(lists, (e["dest"], e["source"])))

    for (j, job), b in zip(jobs, c.build_all([x for _, x in jobs])):
        scripts = [(["reset", "case %d %d" % (i, e["at"])], ["ok", json.dumps(dict(e, name=n))]) for i, n in enumerate(shards[j]) for e in rows[n]]
        replay_scripts(c, scripts, b, "exceptions of parts (%s)" % job["cxx"], match=match)
    c.sample({"case": names[:3]})
