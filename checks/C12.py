"""C12: weights in lt-proc: best first, -N, -L and -W."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
import anal, lex

WS = [0, 0, 250000, 500000, 1000000, 1500000, 2000000, 12000000, 125000, 3, 1234567]


def wdix(r, c):
    """few surface forms, many weighted analyses for each"""
    n = [c.tags.id(x) for x in ("n", "v", "adj", "pl")]
    forms = [D.S(x) for x in r.sample(["a", "ab", "A", "b", "aB", "ba"], r.randint(1, 4))]

    def w():
        return r.choice(WS) if r.random() < 0.8 else r.randint(-3000, 20000)
    es, ps = [], []
    for _ in range(r.randint(2, 9)):
        f = r.choice(forms)
        es.append(D.entry([D.P(f, D.S(r.choice(["a", "b", "ab", "A"])) + [r.choice(n)] * r.randint(0, 1))], w=w()))
    if r.random() < 0.6:
        # weights spread over entries and paradigms; several ways to the same analysis
        ps = [{"n": "p", "es": [D.entry([D.P(D.S(r.choice(["", "a", "b"])), [r.choice(n)])], w=w()) for _ in range(r.randint(1, 4))]}]
        for _ in range(r.randint(1, 3)):
            es.append(D.entry([D.I(r.choice(forms)), D.PAR("p")], w=w()))
    if r.random() < 0.3:
        # entries that read nothing but weigh something
        ps.append({"n": "q", "es": [D.entry([D.P([], [x])], w=w()) for x in r.sample(n, 2)]})
        es.append(D.entry([D.I(r.choice(forms)), D.PAR("q")] + ([D.PAR("q")] if r.random() < 0.3 else []), w=w()))
    secs = [{"id": "main", "type": "standard", "es": es}]
    if r.random() < 0.3:
        secs.append({"id": "two", "type": r.choice(["standard", "inconditional"]), "es":
                     [D.entry([D.P(r.choice(forms), D.S("a") + [n[0]])], w=w()) for _ in range(3)]})
    return {"letters": D.S("abAB"), "sdefs": n, "pardefs": ps, "sections": secs}


def flags(r):
    return {"cs": False, "w": r.random() < 0.2, "W": r.random() < 0.7,
            "N": r.choice([1, 2, 3, 5]) if r.random() < 0.5 else 1000, "L": r.choice([1, 2, 3]) if r.random() < 0.4 else 1000}


def one(ctx, i):
    if i % 4 == 3:
        return anal.setup(ctx, i, weights=True, flags=flags, nent=12, maxword=2)
    return anal.setup(ctx, i, chars="abAB", d=wdix, flags=flags, dirs=("LR",))


def lexone(ctx, i):
    r = ctx.rng("lex", i)
    what = r.choice(["gen", "bil"])
    if i % 3 == 2:
        return lex.setup(ctx, i, what, weights=True, flags=flags, nent=12, maxword=2)
    return lex.setup(ctx, i, what, chars="abAB", d=wdix, flags=flags)


def body(ctx):
    ctx.traces("TraceLex", lexone, ctx.size(800, 8000))
    ctx.traces("TraceProc", one, ctx.size(1600, 16000))


if __name__ == "__main__":
    sys.exit(core.main("C12", body))
