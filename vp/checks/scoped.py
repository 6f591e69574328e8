"""C16: scoped delegates.  spec/Scoped enumerates programs of nested scopes; each becomes a C++ function."""
import json, random
import concurrent.futures as cf
from ..core import *

# how a delegate is declared: text before it, initializer, text after it
CALLABLES = [
    lambda d: ("", "[&]{ called(%d); }" % d),
    lambda d: ("Functor f%d{%d};" % (d, d), "f%d" % d),
    lambda d: ("", "&plain<%d>" % d),
    lambda d: ("", "std::function<void()>(Functor{%d})" % d),
    lambda d: ("", "xme::Delegate<void()>(Own(%d))" % d),
    lambda d: ("", "xme::bind_front(&called, %d)" % d),
    lambda d: ("Counting f%d{%d};" % (d, d), "f%d" % d),
    lambda d: ("const Functor f%d{%d};" % (d, d), "f%d" % d),
    lambda d: ("", "Own(%d)" % d),
    lambda d: ("", "Moves(%d)" % d),
    lambda d: ("Counting f%d{%d};" % (d, d), "std::ref(f%d)" % d),
    lambda d: ("Own f%d(%d);" % (d, d), "f%d" % d, "f%d.still(%d);" % (d, d)),         # a named function object stays with its owner
    lambda d: ("", "Counting{%d}" % d),
    lambda d: ("auto f%d = [n = %d]() mutable noexcept { called(n); n = 99; };" % (d, d), "f%d" % d),
]
OPEN = {"block": "{", "func": "[&]{", "try": "try {", "loop": "do {", "unwind": "try { Unwound u{[&]{"}


def close(k, uid):
    end = "E%d: ;" % uid if uid else ""
    return {"block": "} ", "func": "}(); ", "try": "} catch(const Stop&) { say(900); } ", "loop": "} while(!yes); ", "unwind": "}}; throw Outer{}; } catch(const Outer&) {} "}[k] + end


def program(n, prog, rot, callables=CALLABLES, head="static void p%d()"):
    """A C++ function that is the program."""
    src, stack, nd, uid = [], [["program", False, 0]], 0, 0
    dead = 0

    def pop():
        k, jumped, u = stack.pop()
        if k != "program":
            src.append(close(k, u if jumped else 0))
    for i, ins in enumerate(prog, 1):
        src.append("say(%d);" % i)
        op = ins[0]
        if op == "open":
            uid += 1
            stack.append([ins[1], False, uid])
            src.append(OPEN[ins[1]])
        elif op in ("make", "temp"):
            nd += 1
            pre, ini, *after = callables[(rot + nd * 5) % len(callables)](nd)
            src.append(pre)
            src.append(("xme::ScopedDelegate d%d(%s);" if op == "make" else "(void)xme::ScopedDelegate{%.0s%s};") % (nd, ini))
            src.extend(after)
        elif op == "close":
            pop()
        else:
            h = ins[1] or 1
            if op == "goto":
                stack[h - 1][1] = True
                src.append("if(yes) goto E%d;" % stack[h - 1][2])
            elif op == "throw":
                src.append("if(yes) throw Stop{};")
            else:
                src.append("if(yes) %s;" % op)
            dead += 1
            # never reached (a goto may not jump over its construction: give it a scope)
            src.append("{ xme::ScopedDelegate x%d([&]{ out.push_back(998); }); }" % dead)
            while len(stack) >= h:
                pop()
    return head % n + " { %s }\n" % " ".join(src)


def c16(c):
    rng = random.Random(c.seed + 16)
    sizes = (8, 4, 4) if c.thorough else (7, 4, 3)
    r = c.tlc("Scoped", "INIT Init\nNEXT Next\nCONSTANTS Length = %d Depth = %d Delegates = %d\nINVARIANT OncePerDelegate\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % sizes, workers=4)
    if not r.completed:
        raise CheckError("TLC did not complete on Scoped")
    progs = [(e["prog"], e["log"]) for e in r.emits()]
    progs.sort(key=lambda p: (len(p[0]), json.dumps(p[0])))
    c.notes["programs_in_the_model"] = len(progs)
    n = 12000 if c.thorough else 2400
    if len(progs) > n:
        short = [p for p in progs if len(p[0]) <= 4]
        rest = [p for p in progs if len(p[0]) > 4]
        many = [p for p in rest if sum(i[0] == "make" for i in p[0]) >= 2]
        progs = short + rng.sample(many, min(len(many), n - len(short)))
    c.log("programs", len(progs))
    units = []
    per = (len(progs) + 15) // 16 if c.thorough else (len(progs) + 7) // 8
    for u in range(0, len(progs), per):
        part = progs[u:u + per]
        src = '#include "scoped.hpp"\n' + "".join(program(i, p, rng.randrange(100)) for i, (p, _) in enumerate(part))
        src += "static void (*const all[])() = {%s};\n" % ",".join("p%d" % i for i in range(len(part)))
        src += ("int main() { for(auto* p : all) { out.clear(); try { p(); } catch(const Stop&) { say(901); }\n"
                "  for(int x : out) std::printf(\"%d \", x); std::puts(\"\"); std::fflush(stdout); } std::puts(\"bye\"); }\n")
        units.append((part, src, c.write("scoped%d.cpp" % u, src)))
    bins = c.build_all([dict(src=u[2], name="scoped", flags=(ASAN if i % 2 == 0 else ["-O2"])) for i, u in enumerate(units)])
    for (part, src, _), b in zip(units, bins):
        if not b:
            continue
        rc, out, err = c.run(b)
        lines = out.splitlines()
        text = src.splitlines()
        for i, (p, log) in enumerate(part):
            got = list(map(int, lines[i].split())) if i < len(lines) and lines[i] != "bye" else None
            c.traces += 1
            c.steps += len(p)
            if got != log:
                c.violation("the program `%s` logs %s, the specification requires %s%s" % (
                    " ; ".join(" ".join(map(str, x)) for x in p), got, log, " [exit %s] %s" % (rc, err[:500]) if got is None else ""),
                    {"kind": "program", "program": p, "source": text[1 + i], "expected": log, "got": got, "exit": rc, "stderr": err[:2000]}, key="program")
                break
        else:
            if rc != 0 or not lines or lines[-1] != "bye":
                c.violation("the programs end with exit status %s: %s" % (rc, err[:500]), {"kind": "program", "exit": rc, "stderr": err[:3000], "source": src[:4000]}, key="program")
        if not c.samples:
            c.sample({"program": part[len(part) // 2][0], "log": part[len(part) // 2][1]})
