"""Recorder for lt-proc: one run over a null-separated stream, one chunk per text."""
import os
import dix as D
from chain import Chain, UNB


def cps(b):
    """code points of UTF-8 output; broken bytes become private values that no specification accepts"""
    if isinstance(b, bytes):
        b = b.decode("utf-8", "surrogateescape")
    return [ord(c) for c in b]


class Proc(Chain):
    def __init__(self, ctx, sid, tags=None):
        super().__init__(ctx, sid, tags)
        self.chunks = []
        self.status = "ok"
        self.extra = {}
        self.events = [1]

    def scenario(self):
        s = {"id": self.sid, "tags": self.tags.names, "tagcps": self.tags.cps(), "about": self.about,
             "chunks": self.chunks, "status": self.status}
        s.update(self.extra)
        return s

    def compile_quiet(self, d, opt):
        """compile without logging; the trace is about lt-proc"""
        src = self.write_dix(d)
        o = self.out("b%d" % len(self.files))
        rc, so, se = self.ctx.run("lt-comp", self.opt_args(opt) + [opt["dir"].lower(), src, o])
        return o if rc == 0 and os.path.exists(o) else None

    def stream(self, args, texts, tool="lt-proc", last_null=True):
        """run the tool with -z on the texts; last_null: one more, empty, chunk is written at the end"""
        data = b"\0".join(t.encode("utf-8") for t in texts) + b"\0"
        if tool == "lt-proc" and len(data) % 4 == 3:      # the same through named files
            fi = self.ctx.tmp("in")
            with open(fi, "wb") as f:
                f.write(data)
            fo = self.ctx.tmp("out") if len(data) % 8 == 7 else None
            rc, so, se = self.ctx.run(tool, args + [fi] + ([fo] if fo else []))
            if fo and os.path.exists(fo):
                with open(fo, "rb") as f:
                    so += f.read()
                os.remove(fo)
            os.remove(fi)
        else:
            rc, so, se = self.ctx.run(tool, args, stdin=data)
        self.stderr = se.decode("utf-8", "replace")
        parts = so.split(b"\0")
        want = len(texts) + (2 if last_null else 1)
        if rc != 0:
            self.status = "crash" if rc == "timeout" or rc < 0 else "fail"
        elif len(parts) != want or any(parts[len(texts):]):
            self.status = "chunks"
        for i, t in enumerate(texts):
            self.chunks.append({"in": cps(t), "out": cps(parts[i]) if i < len(parts) else [0]})
        return rc


def text_of(sym, tags):
    """dictionary side (markers resolved) -> characters, without tags"""
    m = {D.mB: " ", D.mJ: "+", D.mA: "~", D.mG: "#", D.mM: ""}
    return "".join(m[c] if c in m else chr(c) for c in sym if c > 0)


ESC = set("[]{}^$/\\@<>")


def esc(s):
    return "".join("\\" + c if c in ESC else c for c in s)


def sides(d, which="l"):
    """rough set of surface strings of a dictionary (paradigms expanded a little), for making texts"""
    par = {}

    def els(es):
        outs = [[]]
        for el in es:
            if el["t"] == "par":
                opts = par.get(el["n"], [[]])[:4]
            elif el["t"] == "re":
                opts = [[y["c"]] if y["k"] == "chr" else [] for y in [el["re"]]]
            elif el["t"] == "p":
                opts = [el[which]]
            elif el["t"] == "ig" and which == "r":
                opts = [[35] + el["l"]]
            else:
                opts = [el["l"]]
            outs = [a + b for a in outs for b in opts][:8]
        return outs
    for p in d["pardefs"]:
        par[p["n"]] = [x for e in p["es"] for x in els(e["els"])]
    return [x for s in d["sections"] for e in s["es"] for x in els(e["els"]) if x]


class TextGen:
    def __init__(self, r, words, chars, blanks=True, junk=".,-0'é~+#*😀 ​", special=True, wblank=True):
        self.r, self.words, self.chars = r, words, chars
        self.blanks, self.junk, self.special, self.wblank = blanks, junk, special, wblank

    def cased(self, w):
        r = self.r
        z = r.random()
        if z < 0.55:
            return w
        if z < 0.7:
            return w[:1].upper() + w[1:]
        if z < 0.8:
            return w.upper()
        if z < 0.85:
            return w.lower()
        return "".join(c.upper() if r.random() < 0.3 else c for c in w)

    def blank(self):
        r = self.r
        z = r.random()
        if z < 0.6 or not self.blanks:
            return " "
        if z < 0.7:
            return "[" + r.choice(["", "x", "<b>", "\\]", " ", "é😀", "\n"]) + "]"
        if z < 0.75 and self.wblank:
            return r.choice(["[[t:b:x]]", "[[/]]"])
        if z < 0.8:
            return "\\ " if self.special else " "
        if z < 0.9:
            return "  "
        return r.choice(["\n", "\t"])

    def word(self):
        r = self.r
        if self.words and r.random() < 0.8:
            w = r.choice(self.words)
            if r.random() < 0.2:
                w = w[:r.randint(0, len(w))]
            if r.random() < 0.1:
                w = w + r.choice(self.chars)
            w = self.cased(w)
        else:
            w = "".join(r.choice(self.chars) for _ in range(r.randint(1, 3)))
        out = ""
        for c in w:
            out += self.blank() if c == " " else esc(c)
            if self.special and r.random() < 0.01:
                out += "­"
        return out

    def text(self, n=None):
        r = self.r
        out = ""
        for _ in range(n or r.randint(1, 5)):
            out += self.word()
            z = r.random()
            if z < 0.6:
                out += self.blank()
            elif z < 0.75:
                out += esc(r.choice(self.junk))
            elif z < 0.8 and self.special:
                out += "\\" + r.choice("[]{}^$/\\@<>ab. ")
        if r.random() < 0.3 and out:
            out = out[:-1] if out[-1] == " " and not out.endswith("\\ ") else out
        return out


class LargeText(TextGen):
    """long blanks, many words"""
    def blank(self):
        r = self.r
        if r.random() < 0.12:
            return "[" + "".join(r.choice("x é<>") for _ in range(r.choice([70, 130, 300, 600, 1100]))) + "]"
        return TextGen.blank(self)

    def text(self, n=None):
        return TextGen.text(self, n or self.r.choice([2, 4, 12]))
