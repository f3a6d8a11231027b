"""C13: lt-trim keeps exactly the analyses the bilingual dictionary knows."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
from chain import Chain
from dix import entry, P, I, PAR, mB, mJ, mG, mT, mC, mD, mDs, mDn


def word(r, n=2, sp=True):
    w = [ord(r.choice("ab")) for _ in range(r.randint(1, n))]
    if sp and r.random() < 0.12:
        w += [mB, ord(r.choice("ab"))]
    if sp and r.random() < 0.06:
        w += [mJ, ord(r.choice("ab"))]       # a '+' that belongs to the lemma
    return w


def one(ctx, i):
    r = ctx.rng(i)
    c = Chain(ctx, "s%d" % i)
    T = [c.tags.id(x) for x in ("n", "v", "sg", "pl")]
    cmp = [c.tags.id("<compound-only-L>"), c.tags.id("<compound-R>")]
    lem = [word(r) for _ in range(r.randint(1, 4))]
    tg = [r.sample(T, r.randint(1, 2)) for _ in range(3)]
    if r.random() < 0.15:                     # text after the first tag
        tg[0] = tg[0] + [r.choice([mB, ord("a")])] + r.sample(T, r.randint(0, 1))
    q = [([mB] if r.random() < 0.4 else []) + word(r, 2, r.random() < 0.2) for _ in range(2)]
    wts = r.random() < 0.4
    ident = r.random() < 0.15                 # tags on the left side too

    def unit():
        return list(r.choice(lem)), list(r.choice(tg)) + (r.sample(T, 1) if r.random() < 0.3 else [])

    def analysis():
        l, t = unit()
        s = l + t
        if r.random() < 0.25:
            for _ in range(r.choice([1, 1, 2])):
                l, t = unit()
                s += [mJ] + l + t
        if r.random() < 0.25:
            s += [mG] + r.choice(q)
        if r.random() < 0.1:
            k = r.randint(1, len(s))
            if not any(x in (mG,) for x in s[:k]) or True:
                s = s[:k] + [r.choice(cmp)] + s[k:] if k < len(s) and s[k - 1] < 0 else s + [r.choice(cmp)] if mG not in s else s
        return s

    def bside():
        l, t = unit()
        if r.random() < 0.25:
            return l + [mG] + r.choice(q) + (t if r.random() < 0.85 else [])
        if r.random() < 0.12:
            return l
        return l + t

    names = r.sample(["main", "extra", "aux"], 3)
    pars, psec = [], []
    if r.random() < 0.4:
        pars = [{"n": "p", "es": [entry([P(word(r, 1, False), r.choice(tg))], w=r.choice([0, 250000, 3]) if wts else 0) for _ in range(2)]}]
    mono = {"letters": D.S("ab"), "sdefs": T + cmp, "pardefs": pars, "sections": []}
    for k in range(r.choice([1, 1, 2, 3])):
        es = []
        for _ in range(r.randint(1, 5)):
            w = r.choice([0, 0, 500000, 1500000]) if wts else 0
            if ident:
                es.append(entry([I(analysis()) if r.random() < 0.6 else P(word(r, 2, False) + r.sample(T, 1), analysis())], w=w))
            elif pars and r.random() < 0.4:
                es.append(entry([P(word(r, 2, False), list(r.choice(lem))), PAR("p")], w=w))
            else:
                es.append(entry([P(word(r, 3, False), analysis())], w=w))
        mono["sections"].append({"id": names[k], "type": r.choice(["standard", "inconditional"]) if k else "standard", "es": es})
    bi = {"letters": D.S("ab"), "sdefs": list(reversed(T)), "pardefs": [], "sections": []}
    for k in range(r.choice([1, 1, 2])):
        es = [entry([P(bside(), word(r, 2, False) + [T[0]])], w=r.choice([0, 0, 750000]) if wts else 0) for _ in range(r.randint(1, 4))]
        bi["sections"].append({"id": names[k], "type": "standard", "es": es})
    if r.random() < 0.5:                      # only the tags it uses
        bi["sdefs"] = [t for t in bi["sdefs"] if t == T[0] or any(t in q["l"] for s in bi["sections"] for e in s["es"] for q in e["els"])]
    c.about = D.dix_xml(mono, c.tags).replace("\n", "") + " | " + D.dix_xml(bi, c.tags).replace("\n", "")
    match = [n + "@standard" for n in names if r.random() < 0.3]
    if c.compile("m", mono) and c.compile("b", bi):
        if c.trim("t", "m", "b", match) and r.random() < 0.3:
            c.trim("t2", "t", "b", match)          # trimming twice
    return c


def sepone(ctx, i):
    """separable dictionaries: words that end in a boundary, wildcards"""
    r = ctx.rng("sep", i)
    c = Chain(ctx, "p%d" % i)
    c.separable()
    c.max = 14
    T = [c.tags.id(x) for x in ("n", "v", "sg")]
    lem = [[ord(r.choice("ab")) for _ in range(r.randint(1, 2))] for _ in range(3)]
    q = [ord(r.choice("ab"))]

    def word():
        w = [mC] if r.random() < 0.25 else list(r.choice(lem))
        w += r.choice([[T[0]], [T[1]], [T[0], T[2]], [T[0], mT], [mT], [T[1], T[2]]])
        x = r.random()
        if x < 0.1:
            w += [mJ] + r.choice(lem) + [r.choice(T)]
        elif x < 0.2 and mT not in w:
            w += [mG] + q
        return w

    def out():
        s = word()
        if r.random() < 0.5 and len(s) <= 3:
            s += [r.choice([mD, mD, mDs, mDn])] + word()
        return s + ([r.choice([mD, mD, mDs])] if r.random() < 0.8 else [])
    es = []
    for _ in range(r.randint(1, 4)):
        o = out()
        w = r.choice([0, 0, 500000, 3])
        if {mC, mT} & set(o) or r.random() < 0.3:
            es.append(entry([I(o)], w=w))
        else:
            es.append(entry([P([ord(r.choice("ab")) for _ in range(r.randint(1, 3))] + [mD], o)], w=w))
    mono = {"letters": D.S("ab"), "sdefs": T, "pardefs": [], "sections": [{"id": "main", "type": "standard", "es": es}]}
    bes = []
    for _ in range(r.randint(1, 3)):
        b = list(r.choice(lem)) + ([mG] + q if r.random() < 0.2 else []) + r.choice([[T[0]], [T[1]], [T[0], T[2]], []])
        bes.append(entry([P(b, [ord("x")] + [T[0]])]))
    bi = {"letters": D.S("ab"), "sdefs": T, "pardefs": [], "sections": [{"id": "main", "type": "standard", "es": bes}]}
    c.about = D.dix_xml(mono, c.tags, "separable").replace("\n", "") + " | " + D.dix_xml(bi, c.tags).replace("\n", "")
    ok = c.compile("m", mono)
    sep, c.sep = c.sep, []
    if c.compile("b", bi) and ok:
        c.trim("t", "m", "b", sep=sep)
    return c


def body(ctx):
    ctx.traces("TraceToolchain", sepone, ctx.size(600, 8000))
    ctx.traces("TraceToolchain", one, ctx.size(1800, 18000))


if __name__ == "__main__":
    sys.exit(core.main("C13", body))
