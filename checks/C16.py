"""C16: lt-invert swaps the two sides, nothing else."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
from chain import Chain, gen_dix


def one(ctx, i):
    r = ctx.rng(i)
    c = Chain(ctx, "s%d" % i)
    d = gen_dix(c, r, attrs=False)
    if c.compile("a", d, c.opt(dir=r.choice(["LR", "RL"]))):
        if c.invert("b", "a"):
            c.invert("c", "b")
    c.about = D.dix_xml(d, c.tags).replace("\n", "")
    return c


def body(ctx):
    ctx.traces("TraceToolchain", one, ctx.size(1600, 16000))


if __name__ == "__main__":
    sys.exit(core.main("C16", body))
