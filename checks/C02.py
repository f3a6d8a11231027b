"""C02: lt-expand lists exactly the pairs lt-comp compiles, with their directions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
from chain import Chain


def one(ctx, i):
    r = ctx.rng(i)
    c = Chain(ctx, "s%d" % i)
    attrs = r.random() < 0.5
    g = D.Gen(r, chars=r.choice(["ab", "abc", "ab^$/", "a<>{}b", "a*@#+~:\\\\b", "abé😀", "a:b"]), regex=r.random() < 0.2,
              attrs=attrs, ncls=0, lefttags=r.choice([0, 0.3]), empties=r.random() < 0.2, npar=r.choice([3, 5]), nent=r.choice([4, 8]))
    d = g.dix(c.tags)
    d["spell"] = r.choice([0, r.randint(1, 10**9)])
    if D.dix_has_re(d):
        c.max = 5
    for j in range(2):
        opt = c.opt(keepm=r.random() < 0.3)
        if attrs:
            for k in ("alt", "v", "vl", "vr"):
                if r.random() < 0.5:
                    opt[k] = r.choice("xyz")
        c.expand(d, opt)
    c.about = D.dix_xml(d, c.tags).replace("\n", "")
    return c


def body(ctx):
    ctx.traces("TraceToolchain", one, ctx.size(2000, 20000))


if __name__ == "__main__":
    sys.exit(core.main("C02", body))
