import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
from chain import Chain


def one(ctx, i):
    r = ctx.rng(i)
    c = Chain(ctx, "s%d" % i)
    big = i % 8 == 7
    feats = dict(dupsec=True, nent=12 if big else 5, maxword=5 if big else 3, npar=5 if big else 3, weights=r.random() < 0.4, regex=r.random() < 0.3, attrs=r.random() < 0.4, empties=r.random() < 0.2,
                 types=r.choice([("standard",), ("standard", "inconditional", "postblank", "preblank")]))
    g = D.Gen(r, chars=r.choice(["ab", "abc", "aAbB", "abé", "ab😀", "a0-", "abcdefgh"]), lefttags=r.choice([0, 0.3]), **feats)
    d = g.dix(c.tags)
    d["spell"] = r.choice([0, r.randint(1, 10**9)])
    if D.dix_has_re(d):
        c.max = 5
    for j in range(2):
        opt = c.opt(dir=["LR", "RL"][j], keepm=r.random() < 0.3)
        if feats["attrs"]:
            for k in ("alt", "v"):
                if r.random() < 0.5:
                    opt[k] = r.choice("xyz")
            k = "vr" if opt["dir"] == "LR" else "vl"
            if r.random() < 0.5:
                opt[k] = r.choice("xyz")
        x = r.random()
        env, extra = {}, []
        if x < 0.2:
            extra = ["-j"]
        elif x < 0.3:
            env = {"LT_JOBS": "y"}
        if r.random() < 0.15:
            env["LT_MAX_SECTION_ENTRIES"] = str(r.randint(1, 4))
            c.split = True
        c.compile("f%d" % j, d, opt, extra=extra, env=env)
        c.split = False
    c.about = D.dix_xml(d, c.tags).replace("\n", "")
    return c


def reone(ctx, i):
    """regular expressions of all shapes"""
    r = ctx.rng("re", i)
    c = Chain(ctx, "r%d" % i)
    c.max = r.choice([3, 4, 5])
    g = D.Gen(r, chars=r.choice(["ab", "abc", "aé", "b😀", "a-b", "a*("]), marks=False)
    es = []
    for _ in range(r.choice([1, 1, 2])):
        els = [D.RE(g.deep(r.randint(1, 3)) if r.random() < 0.9 else {"k": "cat", "xs": [g.ncls(), g.deep(1)]})]
        if r.random() < 0.2:
            els.insert(r.randint(0, 1), D.P(g.word(1, 2), g.word(0, 1) + g.tagseq(c.tags)))
        if r.random() < 0.15:
            els.append(D.RE(g.deep(1)))
        es.append(D.entry(els, w=r.choice([0, 0, 250000])))
    d = {"letters": sorted(g.chars), "sdefs": [c.tags.id(t) for t in g.tagnames], "pardefs": [], "sections": [{"id": "main", "type": "standard", "es": es}]}
    c.about = D.dix_xml(d, c.tags).replace("\n", "")
    c.compile("f", d, c.opt(dir=r.choice(["LR", "RL"])))
    return c


def sepone(ctx, i):
    """separable dictionaries: wildcards and word boundaries"""
    r = ctx.rng("sep", i)
    c = Chain(ctx, "p%d" % i)
    c.separable()
    c.max = r.choice([5, 6, 7])
    d = D.sep_dix(r, c.tags, r.random() < 0.4)
    d["spell"] = r.choice([0, 0, r.randint(1, 10**9)])
    c.about = D.dix_xml(d, c.tags, "separable").replace("\n", "")
    for x in ("LR", "RL"):
        c.compile(x, d, c.opt(dir=x))
    return c


def body(ctx):
    ctx.traces("TraceToolchain", sepone, ctx.size(800, 8000))
    ctx.traces("TraceToolchain", reone, ctx.size(700, 10000))
    ctx.traces("TraceToolchain", one, ctx.size(3000, 30000))


if __name__ == "__main__":
    sys.exit(core.main("C01", body))
