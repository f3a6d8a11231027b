"""C23: decomposition of unknown words (lt-proc -e)."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
import anal
from proc import TextGen, esc

LS = [":co:only-L", ":compound:only-L", "@co:only-L", "@compound:only-L", "compound-only-L"]
RS = [":co:R", ":compound:R", "@co:R", "@compound:R", "compound-R"]
CH = ["ab", "ab", "abc", "aAb", "abé", "ab😀", "a𐐨𐐀", "ab-"]


def cdix(chars):
    def f(r, c):
        n, v = c.tags.id("n"), c.tags.id("v")
        L, R = c.tags.id(r.choice(LS)), c.tags.id(r.choice(RS))
        c.L, c.R = L, R
        w = lambda: (r.choice([0, 500000, 1000000, 250000]) if weights else 0)
        weights = r.random() < 0.4
        sp = r.random() < 0.3

        def word(lo=1, hi=3):
            x = [ord(r.choice(chars)) for _ in range(r.randint(lo, hi))]
            if sp and len(x) > 1 and r.random() < 0.4:
                x.insert(r.randint(1, len(x) - 1), D.mB)
            return x

        def out(f, tags):
            x = r.random()
            return (f if x < 0.6 else [] if x < 0.66 else word(1, 2)) + tags
        es = []
        for _ in range(r.randint(3, 9)):
            f = word()
            tags = r.choice([[n], [n, L], [n, R], [L], [R], [v, L, n], [v, R], [n, L, R], [v]])
            els = [D.P(f, out(f, tags))]
            if r.random() < 0.15:
                els = [D.P([], word(1, 1))] + els        # output before any input
            es.append(D.entry(els, w=w()))
        ps = []
        if r.random() < 0.4:
            ps = [{"n": "p", "es": [D.entry([D.P(word(0, 1), [n, x])], w=w()) for x in r.sample([L, R, v], r.randint(1, 3))]}]
            for _ in range(r.randint(1, 3)):
                es.append(D.entry([D.I(word(1, 2)), D.PAR("p")], w=w()))
        secs = [{"id": "main", "type": "standard", "es": es}]
        if r.random() < 0.25:
            k = r.randint(1, len(es) - 1)
            secs = [{"id": "main", "type": "standard", "es": es[:k]},
                    {"id": "two", "type": r.choice(["inconditional", "postblank", "preblank", "standard"]), "es": es[k:]}]
        return {"letters": [ord(x) for x in chars if x.isalpha()], "sdefs": [n, v, L, R], "pardefs": ps, "sections": secs}
    return f


class CText(TextGen):
    def word(self):
        r = self.r
        out = "".join(self.cased(r.choice(self.words)) if r.random() < 0.15 else r.choice(self.words) for _ in range(r.choice([1, 2, 2, 2, 3, 3, 4]))) \
            if self.words else "ab"
        if r.random() < 0.15:
            out = out[:r.randint(0, len(out))]
        out = self.cased(out) if r.random() < 0.3 else out
        return "".join(self.blank() if c == " " else esc(c) for c in out)


def one(ctx, i):
    r = ctx.rng("x", i)
    chars = r.choice(CH)
    M = r.choice([4, 4, 4, 1, 2, 6])
    f = cdix(chars)
    keep = {}

    def d(rr, c):
        x = f(rr, c)
        keep.update(tagL=c.L, tagR=c.R)
        return x

    def flags(rr):
        return {"W": rr.random() < 0.3, "tagL": keep["tagL"], "tagR": keep["tagR"], "M": M, "cs": rr.random() < 0.12}
    c = anal.setup(ctx, i, chars=chars, d=d, dirs=("LR",), flags=flags, tgen=CText, extra=["-e"] + (["-M", str(M)] if M != 4 else []))
    if c is not None:       # words lt-proc says it has too many combinations for
        c.extra["flags"]["gaveup"] = [D.S(w) for w in sorted(set(re.findall(r"exceeded for '(.*)'", c.stderr))) if len(w) >= 9]
    return c


def body(ctx):
    ctx.traces("TraceCompound", one, ctx.size(2000, 20000))


if __name__ == "__main__":
    sys.exit(core.main("C23", body))
