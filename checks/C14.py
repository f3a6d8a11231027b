"""C14: lt-compose computes the composition of the two relations, in every job schedule."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
from chain import Chain, gen_dix
from dix import entry, P, I, PAR


def mid(r, tags, n):
    t = [tags.id(x) for x in ("n", "sg", "pl")]
    out = []
    for _ in range(n):
        w = [ord(r.choice("ab")) for _ in range(r.randint(1, 2))]
        if r.random() < 0.2:
            w.append(32)
            w.append(ord("a"))
        out.append(w + r.sample(t, r.randint(0, 2)))
    return out


def mk(r, c, mids, left, weights):
    """left: the middle strings are on the left side (the second transducer), else on the right"""
    secs = []
    for s in range(r.randint(1, 3)):
        es = []
        for _ in range(r.randint(1, 4)):
            m = [x if x != 32 else D.mB for x in r.choice(mids)]
            if r.random() < 0.15:
                m = m[: r.randint(1, len(m))]
                if m[-1] == D.mB:
                    m = m[:-1]
            o = [ord(r.choice("xyza")) for _ in range(r.randint(1, 3))] + ([c.tags.id(r.choice(["n", "x", "sg"]))] if r.random() < 0.4 else [])
            e = entry([P(m, o) if left else P(o, m)], w=r.choice([0, 500000, 1000000, 2250000, 3]) if weights else 0)
            es.append(e)
        secs.append({"id": "s%d" % s, "type": "standard", "es": es})
    sd = [c.tags.id(x) for x in r.sample(["n", "sg", "pl", "x"], 4)]
    return {"letters": D.S("abxyz"), "sdefs": sd, "pardefs": [], "sections": secs}


def one(ctx, i):
    r = ctx.rng(i)
    c = Chain(ctx, "s%d" % i)
    mids = mid(r, c.tags, r.randint(1, 4))
    inv = r.random() < 0.35
    anyw = r.random() < 0.35
    wts = r.random() < 0.5
    f = mk(r, c, mids, inv, wts)
    g = mk(r, c, mids, True, wts)
    c.about = D.dix_xml(f, c.tags).replace("\n", "") + " o " + D.dix_xml(g, c.tags).replace("\n", "")
    if c.compile("f", f) and c.compile("g", g):
        env = {"LT_JOBS": "y"} if r.random() < 0.5 else None
        c.compose("h", "f", "g", inv=inv, anywhere=anyw, env=env)
        if r.random() < 0.3:
            c.compose("h2", "f", "g", inv=inv, anywhere=not anyw, env=env)
    return c


def att(r, wts, left):
    """an acyclic transducer with several final states, final weights and arcs that read or write nothing"""
    n = r.randint(2, 5)
    mid = lambda: r.choice(["a", "a", "b", "<n>", "<sg>", "@0@"])
    out = lambda: r.choice(["x", "y", "a", "<n>", "<x>", "@0@"])
    ls = []
    for k in range(r.randint(n - 1, n + 3)):
        a = k if k < n - 1 else r.randrange(n - 1)
        b = a + 1 if k < n - 1 else r.randint(a + 1, n - 1)
        m, o = mid(), out()
        if left and m == "@0@" == o:          # with -a, the second dictionary does not relate nothing to nothing
            o = "x"
        l, q = (m, o) if left else (o, m)
        ls.append({"k": "arc", "s": a, "d": b, "l": [ord(x) for x in l], "r": [ord(x) for x in q],
                   "w": r.choice([0, 0, 500000, 1000000, 2250000, 3]) if wts else 0})
    for k in [n - 1] + [k for k in range(1, n - 1) if r.random() < 0.3]:
        ls.append({"k": "fin", "s": k, "w": r.choice([0, 0, 700000, 1500000]) if wts else 0})
    return ls


def attone(ctx, i):
    r = ctx.rng(i, "att")
    c = Chain(ctx, "a%d" % i)
    inv = r.random() < 0.35
    wts = r.random() < 0.7
    f, g = att(r, wts, inv), att(r, wts, True)
    o = {"dir": "LR", "hfst": False, "split": False, "max": c.max}
    render = lambda x: ("%d\t%d\t%s\t%s\t%.6f\n" % (x["s"], x["d"], "".join(map(chr, x["l"])), "".join(map(chr, x["r"])), x["w"] / 1000000)
                        if x["k"] == "arc" else "%d\t%.6f\n" % (x["s"], x["w"] / 1000000))
    c.about = " ; ".join(render(x).strip() for x in f) + " o " + " ; ".join(render(x).strip() for x in g)
    if c.att("f", f, o, render) and c.att("g", g, o, render):
        c.compose("h", "f", "g", inv=inv, anywhere=r.random() < 0.35)
    return c


def body(ctx):
    ctx.traces("TraceToolchain", one, ctx.size(1800, 18000))
    ctx.traces("TraceToolchain", attone, ctx.size(1500, 15000))


if __name__ == "__main__":
    sys.exit(core.main("C14", body))
