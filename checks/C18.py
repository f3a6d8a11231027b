"""C18: ACX (equivalent characters): the analyser also accepts the equivalent spellings, with the same analyses."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
from chain import Chain, gen_dix


def one(ctx, i):
    r = ctx.rng(i)
    c = Chain(ctx, "s%d" % i)
    d = gen_dix(c, r, attrs=False, regex=False)
    chars = sorted(set(d["letters"]) | {ord(x) for x in "ab"})
    acx = []
    for ch in r.sample(chars, min(len(chars), r.randint(1, 2))):
        acx.append({"c": ch, "eq": r.sample([ord(x) for x in "áàxy'’😁" if ord(x) != ch] + chars, r.randint(1, 2))})
    if r.random() < 0.5:
        c.compile("a", d, c.opt(dir="LR", acx=acx))
    if c.compile("b", d, c.opt(dir="LR")):
        c.apply_acx("c", "b", acx)
    if r.random() < 0.3 and c.compile("e", d, c.opt(dir="RL")):
        c.apply_acx("f", "e", acx)
    c.about = str(acx) + D.dix_xml(d, c.tags).replace("\n", "")
    return c


def body(ctx):
    ctx.traces("TraceToolchain", one, ctx.size(2000, 20000))


if __name__ == "__main__":
    sys.exit(core.main("C18", body))
