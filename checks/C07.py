"""C07: case in analysis: upper case text matches lower case entries, and the case comes back on the lemma."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import anal
from proc import TextGen, esc

CH = ["aA", "abAB", "abA", "éÉa", "бБ", "a𐐨𐐀", "aAß", "ÀàĀā", "aA1", "aA-", "aA~"]


class Cases(TextGen):
    def cased(self, w):
        r = self.r
        z = r.random()
        if z < 0.15:
            return w
        if z < 0.3:
            return w.lower()
        if z < 0.45:
            return w[:1].upper() + w[1:].lower()
        if z < 0.6:
            return w.upper()
        return "".join(c.upper() if r.random() < 0.5 else c.lower() if r.random() < 0.5 else c for c in w)


def one(ctx, i):
    r = ctx.rng(i, "k")
    return anal.setup(ctx, i, chars=r.choice(CH), tgen=Cases, per=16, marks=r.random() < 0.5, nent=10,
                      flags=lambda q: {"cs": r.random() < 0.3, "w": r.random() < 0.3})


def body(ctx):
    ctx.traces("TraceProc", one, ctx.size(2400, 24000))


if __name__ == "__main__":
    sys.exit(core.main("C07", body))
