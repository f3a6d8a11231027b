"""C25: the characters of an ICX file are ignored in the text, those of an RCX file are restored."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
import anal
from proc import TextGen, esc

SETS = ["aáà", "aáÁA", "aAbBéÉ", "aбБ", "aa𐐨𐐀", "a😀é", "ab'’", "sšSŠ", "aıIi"]
IGN = ["­", "ː", "😀", "'", "é", "‌", "b", "𐐨", "-", "́", " "]


def att(c):
    return {"'": "&#39;", '"': "&quot;", "&": "&amp;", "<": "&lt;"}.get(c, c)


class Gen25(TextGen):
    """texts with the ignored characters thrown in and restorable characters put in place of what they stand for"""
    ign, back = [], {}

    def cased(self, w):
        r = self.r
        w = super().cased(w)
        return "".join(r.choice(self.back[c]) if c in self.back and r.random() < 0.6 else c for c in w)

    def word(self):
        w = super().word()
        r = self.r
        if not self.ign:
            return w
        out, i = "", 0
        while i < len(w):
            if w[i] == "[":                            # ignored characters are part of a superblank
                j = w.index("]", i) if "\\" not in w else len(w) - 1
                out += w[i:j + 1]
                i = j + 1
                continue
            n = 2 if w[i] == "\\" else 1
            out += w[i:i + n]
            i += n
            if r.random() < 0.15:
                out += "".join(r.choice(self.ign) for _ in range(r.randint(1, 2)))
        return (r.choice(self.ign) if r.random() < 0.1 else "") + out


def one(ctx, i):
    r = ctx.rng(i, "icx")
    chars = r.choice(SETS)
    icx, rcx, extra = [], [], []
    dash_i = r.random() < 0.3
    for k in range(r.choice([0, 1, 1, 1, 2])):
        s = r.sample(IGN, r.choice([0, 1, 2, 3]))
        f = ctx.tmp("s%d.%d.icx" % (i, k))
        open(f, "w").write('<?xml version="1.0" encoding="UTF-8"?>\n<!-- x -->\n<ignored-chars>\n%s</ignored-chars>\n'
                           % "".join('  <char value="%s"/>\n' % att(c) for c in s))
        icx += s
        extra += ["-i", f]
    for k in range(r.choice([0, 1, 1, 1, 2])):
        f = ctx.tmp("s%d.%d.rcx" % (i, k))
        body = ""
        for c in r.sample(sorted(set(chars + "ae")), r.randint(1, 3)):
            to = r.sample(sorted(set(chars + "á𐐀")), r.randint(1, 2))
            body += '  <char value="%s">%s</char>\n' % (att(c), "".join('<restore-char value="%s"/>' % att(x) for x in to))
            rcx += [[ord(c), ord(x)] for x in to]
        open(f, "w").write('<?xml version="1.0" encoding="UTF-8"?>\n<restore-chars>\n<!-- y -->\n%s</restore-chars>\n' % body)
        extra += ["-r", f]
    has_r = "-r" in extra
    ign = sorted({ord(c) for c in icx} | (set() if dash_i or has_r else {173}))
    if dash_i:
        extra.append("-I")

    class G(Gen25):
        pass
    G.ign = icx + (["­"] if r.random() < 0.5 else [])
    G.back = {}
    for a, b in rcx:
        G.back.setdefault(chr(b), []).append(chr(a))
        G.back.setdefault(chr(b).upper() if len(chr(b).upper()) == 1 else chr(b), []).append(chr(a).upper() if len(chr(a).upper()) == 1 else chr(a))
    return anal.setup(ctx, i, chars=chars, tgen=G, extra=extra, flags=lambda _: {"ign": ign or [0], "rcx": rcx})


def body(ctx):
    ctx.traces("TraceProc", one, ctx.size(2400, 24000))


if __name__ == "__main__":
    sys.exit(core.main("C25", body))
