"""C10: postgeneration and transliteration rewrite by longest match and keep the rest."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
from proc import Proc, TextGen, esc, text_of

CH = ["ab", "abc", "aAbB", "ab'", "abé", "ab😀", "a𐐨𐐀", "ab/", "ab<", "ab0"]


def word(r, chars, lo, hi, sp):
    n = r.randint(lo, hi)
    w = [ord(r.choice(chars)) for _ in range(n)]
    if sp and w:
        for _ in range(r.choice([0, 0, 1, 1, 2, sp])):
            w.insert(r.randint(1, len(w)), D.mB)
    return w


def rules(r, c, chars):
    es = []
    seen = set()
    tilde = r.random() < 0.5
    many = r.random() < 0.2                    # rules that span many words
    for _ in range(r.randint(1, 7)):
        l = word(r, chars, 1, 3, r.random() < 0.5) if not many else word(r, chars, 2, 5, r.choice([3, 4, 5]))
        if tilde and r.random() < 0.6:
            l = [D.mA] + l
        z = r.random()
        rr = word(r, chars, 0, 3, r.random() < 0.4) if z < 0.6 else l[:] if z < 0.7 else l[1:] if z < 0.85 else [ord(r.choice(chars))] + l
        if r.random() < 0.15 and rr and l[-1] != D.mB:
            l, rr = l + [D.mB], rr + [D.mB]
        els = [D.P(l, rr)]
        if r.random() < 0.3:
            els.append(D.I(word(r, chars, 1, 2, False)))
        es.append(D.entry(els, w=r.choice([0, 0, 0, 500000, 1000000]) if r.random() < 0.3 else 0))
    return {"letters": [ord(x) for x in chars if x.isalpha()], "sdefs": [c.tags.id("n")], "pardefs": [],
            "sections": [{"id": "main", "type": r.choice(["standard", "standard", "inconditional"]), "es": es}]}


class PText(TextGen):
    def word(self):
        w = TextGen.word(self)
        r = self.r
        if "[[" in w:
            return w.replace("[[t:b:x]]", " ").replace("[[/]]", " ")
        if r.random() < 0.15 and w.strip() == w and w and not w.startswith("[") and not w.endswith("\\ "):
            return "[[%s]]%s[[/]]" % (r.choice(["t:b:x", "t:i:y; t:b:z", "é😀", "a\\]b"]), w)
        if r.random() < 0.2:
            w = "~" + w
        return w

    def blank(self):
        b = TextGen.blank(self)
        return " " if b.startswith("[[") else b


class Adjacent(PText):
    """words that follow one another with no blank between them"""
    def word(self):
        r = self.r
        if r.random() < 0.4:
            return PText.word(self)
        w = TextGen.word(self)
        if "[" in w or not w.strip():
            return w.replace("[[t:b:x]]", " ").replace("[[/]]", " ")
        out = ""
        for x in w.split(" "):
            if x.strip() and not x.endswith("\\"):
                out += "[[%s]]%s[[/]]" % (r.choice("xyz"), x) if r.random() < 0.7 else x + " "
        return out


def one(ctx, i):
    r = ctx.rng(i)
    c = Proc(ctx, "s%d" % i)
    chars = r.choice(CH)
    d = rules(r, c, chars)
    opt = c.opt(dir="LR")
    b = c.compile_quiet(d, opt)
    if b is None:
        return None
    words = [text_of(x, c.tags) for e in d["sections"][0]["es"] for x in [sum((el["l"] for el in e["els"]), [])]]
    mode = r.choice(["-p", "-p", "-t", "-x"])
    cs = r.random() < 0.12
    c.extra = {"dix": d, "opt": opt, "flags": {"cs": cs, "tilde": mode == "-p"}}
    t = (PText if r.random() < 0.7 else Adjacent)(r, words, chars)
    args = [mode, "-z"] + (["-c"] if cs else []) + [b]
    c.stream(args, [t.text() for _ in range(14)], last_null=False)
    c.about = "lt-proc " + " ".join(args[:-1]) + " " + D.dix_xml(d, c.tags).replace("\n", "")
    return c


def replay_model(ctx):
    """every behaviour of the design model, replayed on the real lt-proc -p"""
    gen = ctx.behaviours("MCTranslit")
    b, t = D.mB, D.mA

    def e(l, r):
        return D.entry([D.P(l, r)])
    A, B, C = 97, 98, 99
    dicts = [[e([A], [A, A]), e([A, B], [B])],
             [e([t, A, b], [B, b]), e([B, b, A], [C])],
             [e([A, B], [A, b, B]), e([B, A], []), e([A, b], [A])],
             [e([A], [A]), e([B, b, B], [B, b, b, B]), e([A, b, A, b, B], [C])]]
    items = []
    for k, es in enumerate(dicts):
        c = Proc(ctx, "m%d" % k)
        d = {"letters": [A, B], "sdefs": [c.tags.id("n")], "pardefs": [], "sections": [{"id": "m", "type": "standard", "es": es}]}
        f = c.compile_quiet(d, c.opt(dir="LR"))
        beh = [g for g in gen if g[0] == k + 1]
        if f is None:
            items.append(("m%d" % k, "compiled", "not compiled", "dictionary %d of MCTranslit" % (k + 1)))
            continue
        c.stream(["-p", "-z", f], ["".join(map(chr, g[1])) for g in beh], last_null=False)
        items.append(("m%d" % k, "ok", c.status, "status of lt-proc -p -z on all texts of MCTranslit"))
        for g, ch in zip(beh, c.chunks):
            items.append(("m%d" % k, g[2], ch["out"], "dictionary %d of MCTranslit, text %r" % (k + 1, "".join(map(chr, g[1])))))
    ctx.expect("MCTranslit", items)
    ctx.notes.append("%d behaviours of MCTranslit replayed on lt-proc -p" % len(gen))


def body(ctx):
    replay_model(ctx)
    ctx.traces("TraceTranslit", one, ctx.size(3000, 30000))


if __name__ == "__main__":
    sys.exit(core.main("C10", body))
