"""C30: the library's biltrans and lookup functions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
import lex
from proc import Proc, sides


class Lib(Proc):
    def scenario(self):
        s = super().scenario()
        s["calls"] = self.calls
        return s


def one(ctx, i):
    r = ctx.rng(i)
    c = Lib(ctx, "s%d" % i)
    c.calls = []
    chars = r.choice(lex.CHARS)
    bil = r.random() < 0.75
    d = D.Gen(r, chars=chars, weights=r.random() < 0.3, attrs=False, marks=r.random() < 0.5, maxword=r.choice([2, 3]), nent=r.choice([4, 8]),
              types=r.choice([("standard",), ("standard",), ("standard", "inconditional", "postblank", "preblank")])).dix(c.tags)
    opt = c.opt(dir=r.choice(["LR", "LR", "RL"]))
    b = c.compile_quiet(d, opt)
    if b is None:
        return None
    f = {"cs": r.random() < 0.15, "w": r.random() < 0.1, "W": r.random() < 0.15, "N": r.choice([1, 2]) if r.random() < 0.15 else 1000,
         "L": r.choice([1, 2]) if r.random() < 0.15 else 1000}
    words = [[lex.M.get(x, x) for x in w if x != D.mM] for w in sides(d, "l" if opt["dir"] == "LR" else "r")]
    g = lex.LexGen(r, words, c.tags, chars, bil=True, marks=False)
    lines = []
    for _ in range(30):
        m = r.choice(["biltrans", "queue", "noqueue"]) if bil else "lookup"
        w = g.reading() if r.random() < 0.9 else g.reading() + c.tags.name(c.tags.id(r.choice(["n", "pl", "zz"]))) * r.randint(1, 2)
        if not w:
            continue
        if m != "lookup" and r.random() < 0.15:
            w = r.choice(["*", "="]) + w
        if w == "=":
            continue
        delim = m != "lookup" and r.random() < 0.5
        if delim:
            w = "^" + w + "$"
        c.calls.append({"m": m, "delim": delim, "in": [ord(x) for x in w], "out": [], "n": 0})
        lines.append("%s\t%d\t%s" % (m, delim, " ".join(str(ord(x)) for x in w)))
    args = ["lookups", b, "bil" if bil else "ana", str(int(f["cs"])), str(int(f["w"])), str(int(f["W"])), str(f["N"]), str(f["L"])]
    rc, so, se = ctx.run("lt-harness", args, stdin="\n".join(lines) + "\n")
    out = so.decode().split("\n")[:-1]
    c.status = "ok" if rc == 0 and len(out) == len(lines) else "fail"
    for x, o in zip(c.calls, out):
        p = o.split("\t")
        cps = lambda s: [int(y) for y in s.split()]
        if x["m"] == "lookup":
            x["n"] = int(p[0])
            x["out"] = [y for k, s in enumerate(p[1:]) for y in ([47] if k else []) + cps(s)]
        else:
            x["out"] = cps(p[0])
            x["n"] = int(p[1]) if len(p) > 1 else 0
    c.extra = {"dix": d, "opt": opt, "flags": f}
    c.about = " ".join(args[2:]) + " " + D.dix_xml(d, c.tags).replace("\n", "")
    return c


def body(ctx):
    ctx.traces("TraceLib", one, ctx.size(2400, 24000))


if __name__ == "__main__":
    sys.exit(core.main("C30", body))
