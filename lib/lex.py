"""Recorder of lt-proc's generation and lexical transfer modes."""
import dix as D
from proc import LargeText, Proc, TextGen, sides, esc, ESC

CHARS = ["ab", "abc", "aAbB", "abé", "ab😀", "ab'.", "aбБ", "a𐐨𐐀", "ab/", "ab<>", "ab[]", "ab\\^", "abß", "a*b", "a%#", "a=@"]
M = {D.mB: 32, D.mJ: 43, D.mA: 126, D.mG: 35}
GEN = {"-g": "unknown", "-d": "all", "-n": "clean", "-l": "tagged", "-m": "nm", "-C": "careful"}


class LexGen:
    def __init__(self, r, words, tags, chars, bil=False, surf="no", marks=True):
        self.r, self.words, self.tags, self.chars, self.bil, self.surf, self.marks = r, words, tags, chars, bil, surf, marks
        self.t = TextGen(r, [], chars)
        self.junk = True

    def cased(self, s):
        r = self.r
        z = r.random()
        up = lambda c: ord(chr(c).upper()) if c > 0 and len(chr(c).upper()) == 1 else c
        lo = lambda c: ord(chr(c).lower()) if c > 0 and len(chr(c).lower()) == 1 else c
        if z < 0.5:
            return s
        if z < 0.65:
            return [up(s[0])] + s[1:] if s else s
        if z < 0.8:
            return [up(c) for c in s]
        if z < 0.88:
            return [lo(c) for c in s]
        return [up(c) if r.random() < 0.4 else c for c in s]

    def reading(self):
        r = self.r
        if self.words and r.random() < 0.85:
            s = list(r.choice(self.words))
            z = r.random()
            if z < 0.1:
                s = s[:r.randint(0, len(s))]
            elif z < 0.25:
                s = s + [self.tags.id(r.choice(["n", "pl", "zz", "x/y"])) for _ in range(r.randint(1, 2))]
            elif z < 0.3:
                s = s + [ord(r.choice(self.chars))]
            elif z < 0.35 and self.bil:
                s = s + [35, 32, ord(r.choice(self.chars))]
            s = self.cased(s)
        else:
            s = [ord(r.choice(self.chars)) for _ in range(r.randint(0, 3))] + [self.tags.id("n")] * r.randint(0, 1)
        out = ""
        for i, c in enumerate(s):
            if c < 0:
                out += self.tags.name(c)
            else:
                ch = chr(c)
                need = ch in ESC or (i == 0 and ch in "*#=%" and r.random() < 0.5) or (ch == "+" and False)
                if r.random() < 0.02 and ch.isalpha():
                    need = True
                out += "\\" + ch if need else ch
        if self.marks and r.random() < 0.25:
            m = r.choice("**@@=%") if not self.bil else r.choice("***=%#")
            out = m + out
        return out

    def unit(self):
        r = self.r
        n = 1
        if self.surf != "no":
            n = r.choice([2, 2, 2, 3])
        elif r.random() < 0.1:
            n = 2
        rs = [self.reading() for _ in range(n)]
        if self.surf != "no":
            rs[0] = "".join(esc(r.choice(self.chars + "%* ")) for _ in range(r.randint(1, 3)))
        return "^" + "/".join(rs) + "$"

    def blank(self):
        r = self.r
        z = r.random()
        if z < 0.6:
            return self.t.blank()
        if z < 0.7:
            return "[[t:b:%s]]" % r.choice(["x", "é", "\\]\\]", "a; b"])
        if z < 0.9:
            return esc(r.choice(".,ab é😀-"))
        return "\\" + r.choice("[]^$/\\@<>a ")

    def text(self):
        r = self.r
        out = ""
        for _ in range(r.randint(1, 5)):
            if r.random() < 0.3:
                out += self.blank()
            out += self.unit()
            if r.random() < 0.7:
                out += self.blank()
        return out


def setup(ctx, i, what, flags=None, per=14, d=None, chars=None, gen=LexGen, marks=True, modes=tuple(GEN), **kw):
    r = ctx.rng(i)
    c = Proc(ctx, "s%d" % i)
    chars = chars or r.choice(CHARS)
    feats = dict(weights=r.random() < 0.3, attrs=False, marks=r.random() < 0.5, maxword=r.choice([2, 3]), nent=r.choice([4, 8]),
                 types=r.choice([("standard",), ("standard",), ("standard", "inconditional", "postblank", "preblank")]))
    feats.update(kw)
    d = d(r, c) if d else D.Gen(r, chars=chars, **feats).dix(c.tags)
    opt = c.opt(dir=r.choice(["RL", "RL", "LR"]) if what == "gen" else r.choice(["LR", "LR", "RL"]))
    b = c.compile_quiet(d, opt)
    if b is None:
        return None
    words = [[M.get(x, x) for x in w if x != D.mM] for w in sides(d, "l" if opt["dir"] == "LR" else "r")]
    f = {"cs": r.random() < 0.12, "w": r.random() < 0.15, "N": 1000, "L": 1000, "W": False, "what": what, "surf": "no"}
    if what == "gen":
        o = r.choice(modes)
        f["mode"] = GEN[o]
        mode = [o] if o != "-C" or r.random() < 0.5 else ["-g", "-C"]
    else:
        o = r.choice(["-b", "-b", "-b", "-o", "-O", "-b -g", "-b -d", "-b -n", "-b -o", "-O -g"])
        mode = o.split()
        f["mode"] = "bilgen" if "-g" in mode else "all" if "-d" in mode else "clean" if "-n" in mode else "unknown"
        f["surf"] = "keep" if "-O" in mode else "yes" if "-o" in mode else "no"
    if flags:
        f.update(flags(r))
    args = mode + (["-z"] + (["-c"] if f["cs"] else []) + (["-w"] if f["w"] else []) + (["-W"] if f["W"] else [])
                   + (["-N", str(f["N"])] if f["N"] < 1000 else []) + (["-L", str(f["L"])] if f["L"] < 1000 else []) + [b])
    c.extra = {"dix": d, "opt": opt, "flags": f, "args": args[:-1]}
    t = gen(r, words, c.tags, chars, bil=(what == "bil"), surf=f["surf"], marks=marks)
    c.stream(args, [t.text() for _ in range(per)], last_null=False)
    c.about = "lt-proc " + " ".join(args[:-1]) + " " + D.dix_xml(d, c.tags).replace("\n", "")
    return c


class LargeGen(LexGen):
    def __init__(self, *a, **k):
        LexGen.__init__(self, *a, **k)
        self.t = LargeText(self.r, [], self.chars)

    def text(self):
        return "".join(LexGen.text(self) for _ in range(self.r.choice([1, 1, 4])))


def large(ctx, i, what):
    return setup(ctx, i, what, chars="ab", d=lambda r, c: D.large_dix(r, c.tags), gen=LargeGen, per=3,
                 modes=[x for x in GEN if x != "-C"])      # what -C allows is a set that grows with the length of the form
