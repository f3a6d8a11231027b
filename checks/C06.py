"""C06: analysis keeps the text: blanks, escapes, superblanks, everything between and around the words."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
import anal
from proc import Proc, TextGen, esc

BL = ["[", "[x", "\\]", "\\[", "\\\\", "[<b>", "é", "😀", "\n", " ", "\\ ", "t:i:a; t:b:b", "/", "^", "$", "@", "{", "~", "­"]


class Blanky(TextGen):
    """texts made mostly of what is not words"""

    def superblank(self):
        r = self.r
        s = "".join(r.choice(BL) for _ in range(r.randint(0, 4)))
        if r.random() < 0.35:
            return "[[" + s.replace("]", "") .replace("\\", "\\\\") + "]]"
        s = s.lstrip("[")                            # '[[' opens a word-bound blank
        return "[" + s + "]"

    def blank(self):
        r = self.r
        return r.choice([" ", " ", "  ", "\\ ", "\n", "\t", " [", "[]"]).replace(" [", " " + self.superblank()) if r.random() < 0.5 else self.superblank()

    def text(self, n=None):
        r = self.r
        out = ""
        for _ in range(r.randint(1, 8)):
            z = r.random()
            if z < 0.4:
                out += self.word()
            elif z < 0.7:
                out += self.blank()
            elif z < 0.85:
                out += esc(r.choice(self.junk))
            else:
                out += "\\" + r.choice("[]{}^$/\\@<>ab. é😀")
        if r.random() < 0.06:
            out += r.choice(["[", "[[", "[x", "[[x", "[[x]", "[\\]", "[x[", "[[\\]]"])
        return out


class Long(TextGen):
    """texts longer than the look-ahead buffer, its end falling at every kind of place"""

    def text(self, n=None):
        r = self.r
        out = ""
        goal = r.choice([2040, 2048, 2050, 4090, 4100])
        while len(out) < goal:
            z = r.random()
            if z < 0.01:
                out += r.choice(self.chars) * r.randint(1, 40)
            elif z < 0.3:
                out += self.blank()
            else:
                out += self.word()
        return out + r.choice(["", " ", ".", "a", "[x]"])


def one(ctx, i):
    if i % 16 == 15:
        return anal.setup(ctx, i, tgen=Long, per=1 + i % 2, chars=ctx.rng(i, "c").choice(["ab", "abé", "ab😀"]))
    return anal.setup(ctx, i, tgen=Blanky, per=14, marks=True, flags=lambda r: {"ign": r.choice([[173], [173], []])})


def edge(ctx, i):
    """units that end exactly at, before or after the end of the look-ahead buffer"""
    c = Proc(ctx, "e%d" % i)
    n = c.tags.id("n")
    S = D.S
    d = {"letters": S("ab"), "sdefs": [n], "pardefs": [], "sections": [{"id": "main", "type": "standard", "es": [
        D.entry([D.P(S("ab"), S("ab") + [n])]), D.entry([D.P([97, D.mB, 98], S("x") + [n])]), D.entry([D.P([97, 98, D.mB, 97, D.mB, 97], S("y") + [n])])]}]}
    opt = c.opt()
    b = c.compile_quiet(d, opt)
    f = {"cs": False, "w": False, "ign": [173], "N": 1000, "L": 1000, "W": False}
    c.extra = {"dix": d, "opt": opt, "flags": f}
    texts = []
    for k in ((-3, -1, 0, 1) if not ctx.thorough() else range(-8, 4)):
        pad = "." * (2048 + k - 2 * (i % 3))
        texts.append(pad + ["ab", "ab a b", "a b.", "ab a.", "a", "[x] ab", "ab a "][i % 7])
    c.about = "a word of ab, 'a b', 'ab a a' around the 2048th character"
    if b:
        c.stream(["-z", b], texts)
    else:
        c.status = "fail"
    return c


def lookahead(ctx, _):
    """known finding: a look-ahead of more than 2048 characters that fails"""
    c = Proc(ctx, "k0")
    n = c.tags.id("n")
    S = D.S
    d = {"letters": S("abc"), "sdefs": [n], "pardefs": [], "sections": [{"id": "main", "type": "standard", "es": [
        D.entry([D.P(S("c"), S("c") + [n])]), D.entry([D.P(S("c" + ".a" * 1100), S("x") + [n])])]}]}
    opt = c.opt()
    b = c.compile_quiet(d, opt)
    f = {"cs": False, "w": False, "ign": [173], "N": 1000, "L": 1000, "W": False}
    c.extra = {"dix": d, "opt": opt, "flags": f, "key": "lookahead-over-2048"}
    c.about = "a dictionary entry of 2201 characters of which the text has the first 2200"
    if b is None:
        c.status = "fail"
    else:
        c.stream(["-z", b], ["c" + ".a" * 1099 + ". a"])
    return c


def body(ctx):
    ctx.traces("TraceProc", one, ctx.size(600, 6000))
    E = [edge(ctx, i) for i in range(ctx.size(21, 42))]
    ctx.validate("TraceProc", [c.scenario() for c in E], rerun=lambda i: edge(ctx, int(i[1:])).scenario())
    ctx.validate("TraceProc", [lookahead(ctx, 0).scenario()], rerun=lambda i: lookahead(ctx, 0).scenario())


if __name__ == "__main__":
    sys.exit(core.main("C06", body))
