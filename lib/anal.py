"""Recorder of lt-proc's analysis mode, shared by the checks that look at it from different sides."""
import dix as D
from proc import LargeText, Proc, TextGen, sides, text_of

CHARS = ["ab", "abc", "aAbB", "abé", "ab😀", "a0-", "ab'.", "abß", "aбБ", "a𐐨𐐀"]


def setup(ctx, i, chars=None, dirs=("LR", "LR", "RL"), flags=None, texts=None, per=12, tgen=None, d=None, last_null=True, extra=(), **kw):
    r = ctx.rng(i)
    c = Proc(ctx, "s%d" % i)
    chars = chars or r.choice(CHARS)
    feats = dict(weights=r.random() < 0.3, attrs=False, marks=r.random() < 0.6, maxword=r.choice([2, 3]), nent=r.choice([4, 8]),
                 types=r.choice([("standard",), ("standard",), ("standard", "inconditional", "postblank", "preblank")]))
    feats.update(kw)
    d = d(r, c) if d else D.Gen(r, chars=chars, **feats).dix(c.tags)
    opt = c.opt(dir=r.choice(dirs))
    b = c.compile_quiet(d, opt)
    if b is None:
        return None
    words = [text_of(x, c.tags) for x in sides(d, "l" if opt["dir"] == "LR" else "r")]
    words = [w for w in words if w]
    f = {"cs": r.random() < 0.15, "w": r.random() < 0.15, "ign": [173], "N": 1000, "L": 1000, "W": False}
    if flags:
        f.update(flags(r))
    args = (["-z"] + (["-c"] if f["cs"] else []) + (["-w"] if f["w"] else []) + (["-W"] if f["W"] else [])
            + (["-N", str(f["N"])] if f["N"] < 1000 else []) + (["-L", str(f["L"])] if f["L"] < 1000 else [])
            + ([] if f["ign"] else ["-I"]) + list(extra) + [b])
    c.extra = {"dix": d, "opt": opt, "flags": f, "args": args[:-1]}
    t = (tgen or TextGen)(r, words, chars)
    c.stream(args, texts(r, t) if texts else [t.text() for _ in range(per)])
    c.about = "lt-proc " + " ".join(args[:-1]) + " " + D.dix_xml(d, c.tags).replace("\n", "")
    return c


def large(ctx, i):
    """long words, long blanks, many analyses"""
    return setup(ctx, i, chars="ab", d=lambda r, c: D.large_dix(r, c.tags), tgen=LargeText, dirs=("LR",), per=3,
                 flags=lambda r: {"W": r.random() < 0.3, "N": r.choice([1000, 1000, 3, 12])})
