"""C15: lt-append puts two compiled dictionaries together without touching either's content."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
from chain import Chain, gen_dix


def one(ctx, i):
    r = ctx.rng(i)
    c = Chain(ctx, "s%d" % i)
    tn = ["n", "vblex", "sg", "pl", "adj"]
    k = 3
    if r.random() < 0.3:
        tn, k = ["t%d" % j for j in range(12)], 8
    ds = []
    ok = True
    for j in range(r.choice([2, 2, 3])):
        names = r.sample(tn, k)
        d = gen_dix(c, r, attrs=False, regex=False, tagnames=tuple(names), ids=r.sample(["main", "extra", "aux", "foo"], 3))
        ds.append(d)
        ok = c.compile("a%d" % j, d, c.opt(dir=r.choice(["LR", "RL"]))) and ok
    c.about = " ++ ".join(D.dix_xml(d, c.tags).replace("\n", "") for d in ds)
    if ok:
        c.append("b", "a0", "a1", r.random() < 0.5)
        if len(ds) > 2:
            c.append("c", "b", "a2", r.random() < 0.5)
    return c


def body(ctx):
    ctx.traces("TraceToolchain", one, ctx.size(2000, 20000))


if __name__ == "__main__":
    sys.exit(core.main("C15", body))
