"""C03: lt-print writes what the compiled dictionary is; lt-comp reads it back to the same."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
from chain import Chain, gen_dix


def line(x):
    if x["k"] == "sep":
        return "--\n"
    w = "%f" % (x["w"] / 1000000)
    if x["k"] == "fin":
        return "%d\t%s\n" % (x["s"], w)
    return "%d\t%d\t%s\t%s\t%s\n" % (x["s"], x["d"], "".join(map(chr, x["l"])), "".join(map(chr, x["r"])), w)


def splittable(lines, rel, dir):
    """the domain of splitting into words and punctuation (see C26): every arc out of an initial state
    reads one or the other, and no arc leads back to an initial state"""
    first, inits = True, []
    for x in lines:
        if x["k"] == "sep":
            first = True
        elif first:
            inits.append(x["s"])
            first = False
    n = 0
    for x in lines:
        if x["k"] == "sep":
            n += 1
        elif x["k"] == "arc" and x["d"] == inits[n]:
            return False
        elif x["k"] == "arc" and x["s"] == inits[n]:
            t = "".join(map(chr, x["l" if dir == "LR" else "r"]))
            if t in ("", "@0@", "ε", " ", "@_SPACE_@") or t[0] == "<" and len(t) > 1:
                return False
    k = 0 if dir == "LR" else 1
    return all(t[k] and t[k][0] > 0 and not chr(t[k][0]).isspace() for s in rel for t in s["rel"])


def one(ctx, i):
    r = ctx.rng(i)
    c = Chain(ctx, "s%d" % i)
    c.cap = 60
    d = gen_dix(c, r, attrs=False, maxword=r.choice([2, 3]), nent=r.choice([2, 4, 6]))
    if c.compile("a", d, c.opt(dir=r.choice(["LR", "RL"]), keepm=r.random() < 0.1)):
        c.alpha("a")
        h = r.random() < 0.5
        lines = c.print("a", h)
        if lines and not c.skip:
            o = {"dir": r.choice(["LR", "LR", "RL"]), "hfst": h, "split": True, "max": c.max}
            o["split"] = r.random() < 0.7 and splittable(lines, c.events[0]["obs"]["secs"], o["dir"])
            if c.att("b", lines, o, line):
                c.alpha("b")
                c.print("b", r.random() < 0.5)
    c.about = D.dix_xml(d, c.tags).replace("\n", "")
    return c


def body(ctx):
    ctx.traces("TraceToolchain", one, ctx.size(2000, 20000))


if __name__ == "__main__":
    sys.exit(core.main("C03", body))
