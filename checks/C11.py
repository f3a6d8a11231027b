"""C11: null-flush mode answers each text at once, and by that text alone."""
import os, sys, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, dix as D
import inter, lex
from proc import Proc, TextGen, sides, text_of
C10 = importlib.import_module("C10")

MODES = [["-a"], ["-a"], ["-e"], ["-g"], ["-d"], ["-n"], ["-l"], ["-C"], ["-b"], ["-o"], ["-O"], ["-b", "-g"], ["-p"], ["-t"], ["-x"], ["-s"]]
OPTS = [[], [], ["-c"], ["-w"], ["-W"], ["-N", "1"], ["-L", "1"], ["-I"]]


class Ses(Proc):
    def scenario(self):
        s = {"id": self.sid, "about": self.about, "alone": self.alone, "events": self.events}
        s.update(self.extra)
        return s


def one(ctx, i):
    r = ctx.rng(i)
    c = Ses(ctx, "s%d" % i)
    mode = r.choice(MODES)
    chars = r.choice(["ab", "abc", "aAbB", "abé", "ab😀", "ab'."])
    translit = mode[0] in ("-p", "-t", "-x")
    ana = mode[0] in ("-a", "-e", "-s")
    d = C10.rules(r, c, chars) if translit else \
        D.Gen(r, chars=chars, weights=r.random() < 0.3, attrs=False, marks=r.random() < 0.5, maxword=3, nent=r.choice([4, 8]),
              types=r.choice([("standard",), ("standard", "inconditional", "postblank", "preblank")])).dix(c.tags)
    opt = c.opt(dir="LR" if ana or translit else r.choice(["LR", "RL"]))
    b = c.compile_quiet(d, opt)
    if b is None:
        return None
    sd = sides(d, "l" if opt["dir"] == "LR" else "r")
    words = [w for w in (text_of(x, c.tags) for x in sd) if w]
    args = mode + r.choice(OPTS)
    if ana:
        t = TextGen(r, words, chars, special=mode[0] != "-s", wblank=mode[0] != "-s", blanks=mode[0] != "-s")
    elif translit:
        t = C10.PText(r, words, chars)
    else:
        t = lex.LexGen(r, [[lex.M.get(x, x) for x in w if x != D.mM] for w in sd], c.tags, chars, bil="-b" in mode,
                       surf="yes" if mode[0] in ("-o", "-O") else "no")
    texts = [t.text() for _ in range(r.choice([2, 3, 5]))] + r.choice([[], [""], ["\n"], ["."]])
    if r.random() < 0.4:               # texts cut short anywhere, in the middle of a unit or a blank too
        texts += [x[:r.randint(1, len(x))] for x in r.sample(texts, 2) if x]
    z = args + ["-z", b]
    c.alone = [inter.alone(ctx, "lt-proc", z, x) for x in texts]
    ok = [j for j, a in enumerate(c.alone) if a is not None]
    if not ok:
        return None
    texts, c.alone = [texts[j] for j in ok], [c.alone[j] for j in ok]
    kind = r.random()
    last = r.randrange(len(texts)) if kind < 0.5 else None
    if kind < 0.15:                     # one text up to the end of the input, without -z
        c.events = inter.session(ctx, "lt-proc", args + [b], texts, [], last)
        z = args
    else:
        order = [r.randrange(len(texts)) for _ in range(r.randint(1, 6))]
        c.events = inter.session(ctx, "lt-proc", z, texts, order, last)
    c.about = "lt-proc %s %r %s" % (" ".join(z[:-1] if z is not args else args), texts, D.dix_xml(d, c.tags).replace("\n", ""))
    return c


def body(ctx):
    ctx.model("MCFlush")
    ctx.traces("TraceFlush", one, ctx.size(600, 8000))


if __name__ == "__main__":
    sys.exit(core.main("C11", body))
