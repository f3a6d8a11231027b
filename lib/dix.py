"""Dictionaries as plain data (the same data the TLA+ specification reads), their XML form, and
a seeded generator.  Tags are negative ints into a per-scenario tag table."""
import random
from xml.sax.saxutils import escape

mB, mJ, mA, mM, mG = 2000001, 2000002, 2000003, 2000004, 2000005
mT, mC, mD, mDs, mDn, mF = range(2000006, 2000012)


class Tags:
    """tag table: '<n>' <-> -1, ..."""

    def __init__(self):
        self.names = []

    def id(self, name):
        if not name.startswith("<"):
            name = "<" + name + ">"
        if name not in self.names:
            self.names.append(name)
        return -(self.names.index(name) + 1)

    def name(self, i):
        return self.names[-i - 1]

    def cps(self):
        return [[ord(c) for c in n] for n in self.names]


def xml_str(s, tags, in_group=False):
    out = []
    grp = False
    for c in s:
        if c == mB:
            out.append("<b/>")
        elif c == mJ:
            out.append("<j/>")
        elif c == mA:
            out.append("<a/>")
        elif c == mM:
            out.append("<m/>")
        elif c == mG:
            if grp:
                out.append("</g>")
            out.append("<g>")
            grp = True
        elif c >= mT:
            out.append(("<t/>", "<w/>", "<d/>", '<d space="yes"/>', '<d space="no"/>', "<f/>")[c - mT])
        elif c < 0:
            out.append('<s n="%s"/>' % escape(tags.name(c)[1:-1]))
        else:
            out.append(escape(chr(c)))
    if grp:
        out.append("</g>")
    return "".join(out)


RESERVED = set(map(ord, "()[]*?+-^\\|"))


def _rc(c):
    return ("\\" if c in RESERVED else "") + chr(c)


def re_str(x, top=True):
    k = x["k"]
    if x.get("par"):
        return _grp(dict(x, par=False))     # superfluous parentheses
    if k == "chr":
        return _rc(x["c"])
    if k == "cls":
        return "[" + _cls(x) + "]"
    if k == "ncls":
        return "[^" + _cls(x) + "]"
    if k == "cat":
        return "".join(_grp(y) if y["k"] == "alt" and not y.get("par") else re_str(y, False) for y in x["xs"])
    if k == "alt":
        return "|".join(re_str(y, False) for y in x["xs"])
    op = {"star": "*", "plus": "+", "opt": "?"}[k]
    y = x["x"]
    if y["k"] in ("chr", "cls", "ncls") or y.get("par"):
        return re_str(y, False) + op
    return _grp(y) + op


def _cls(x):
    if "txt" in x:
        return x["txt"]
    return "".join(map(_rc, x["cs"]))


def _grp(y):
    return "(" + re_str(y, False) + ")"


class Plain:
    """one spelling of the XML"""

    def gap(self):
        return ""

    def el(self, name, txt):
        return "<%s>%s</%s>" % (name, txt, name)

    def attrs(self, a):
        return a


class Spelled(Plain):
    """the same document spelled otherwise: blanks, comments, references, empty tags, documentation attributes"""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def gap(self):
        x = self.r.random()
        return "" if x < 0.6 else " " if x < 0.7 else "\n\t" if x < 0.8 else "<!-- <e> x & -->" if x < 0.9 else "\n <!--c--> <!---->\n"

    def el(self, name, txt):
        if txt == "" and self.r.random() < 0.5:
            return "<%s/>" % name
        out, i = "", 0
        while i < len(txt):
            c = txt[i]
            if c == "<":
                j = txt.index(">", i) + 1
                out += txt[i:j]
                i = j
            elif c == "&":
                j = txt.index(";", i) + 1
                out += txt[i:j]
                i = j
            else:
                x = self.r.random()
                out += c if x < 0.85 or c.isspace() else "&#%d;" % ord(c) if x < 0.95 else "&#x%X;" % ord(c)
                i += 1
        return "<%s>%s</%s>" % (name, out, name)

    def attrs(self, a):
        x = self.r.random()
        if x < 0.15:
            return ' lm="a b"' + a
        if x < 0.25:
            return a + ' c="&lt;x&gt; y" a="me"'
        return a


def el_xml(el, tags, sp=Plain()):
    t = el["t"]
    if t == "p":
        return "<p>" + sp.gap() + sp.el("l", xml_str(el["l"], tags)) + sp.gap() + sp.el("r", xml_str(el["r"], tags)) + sp.gap() + "</p>"
    if t in ("i", "ig"):
        return sp.el(t, xml_str(el["l"], tags))
    if t == "re":
        return "<re>%s</re>" % escape(re_str(el["re"]), {"\t": "&#9;", "\n": "&#10;", "\r": "&#13;"})
    return '<par n="%s"/>' % escape(el["n"])


def entry_xml(e, tags, sp=Plain()):
    a = ""
    if e["r"]:
        a += ' r="%s"' % e["r"]
    if e["ignore"]:
        a += ' i="yes"'
    for k in ("alt", "v", "vl", "vr"):
        if e[k]:
            a += ' %s="%s"' % (k, " ".join(e[k]))
    if e["w"]:
        a += ' w="%s"' % fmtw(e["w"])
    a = sp.attrs(a)
    if not e["els"]:
        return "<e%s/>" % a
    return "<e%s>%s%s</e>" % (a, "".join(sp.gap() + el_xml(x, tags, sp) for x in e["els"]), sp.gap())


def fmtw(w):
    s = "%.6f" % (w / 1000000)
    return s.rstrip("0").rstrip(".")


def dix_xml(d, tags, dtype=None):
    sp = Spelled(d["spell"]) if d.get("spell") else Plain()
    o = ['<?xml version="1.0" encoding="UTF-8"?>', "<dictionary%s>" % (' type="%s"' % dtype if dtype else ""),
         sp.el("alphabet", escape("".join(map(chr, d["letters"])))), sp.gap() + "<sdefs>"]
    for s in d["sdefs"]:
        o.append('<sdef n="%s"/>' % escape(tags.name(s)[1:-1]) + sp.gap())
    o.append("</sdefs>")
    if d["pardefs"]:
        o.append("<pardefs>")
        for p in d["pardefs"]:
            o.append(sp.gap() + '<pardef n="%s">' % escape(p["n"]) + sp.gap())
            o += [entry_xml(e, tags, sp) + sp.gap() for e in p["es"]]
            o.append("</pardef>")
        o.append("</pardefs>")
    for s in d["sections"]:
        o.append(sp.gap() + '<section id="%s" type="%s">' % (s["id"], s["type"]) + sp.gap())
        o += [entry_xml(e, tags, sp) + sp.gap() for e in s["es"]]
        o.append("</section>")
    o.append("</dictionary>")
    return "\n".join(o) + "\n"


def entry(els, r="", w=0, ignore=False, alt=(), v=(), vl=(), vr=()):
    return {"r": r, "ignore": ignore, "alt": list(alt), "v": list(v), "vl": list(vl), "vr": list(vr), "w": w, "els": els}


def P(l, r):
    return {"t": "p", "l": list(l), "r": list(r)}


def I(x):
    return {"t": "i", "l": list(x)}


def IG(x):
    return {"t": "ig", "l": list(x)}


def PAR(n):
    return {"t": "par", "n": n}


def RE(x):
    return {"t": "re", "re": x, "src": S(re_str(x))}


def S(s):
    return [ord(c) for c in s]


class Gen:
    """seeded dictionary generator"""

    def __init__(self, rng, chars="abcd", tagnames=("n", "vblex", "sg", "pl"), weights=False, regex=False,
                 attrs=False, marks=True, types=("standard",), maxword=3, npar=3, nent=5, empties=False, dupsec=False, ncls=0.07, lefttags=0):
        self.rng = rng
        self.chars = [ord(c) for c in chars]
        self.tagnames = tagnames
        self.weights, self.regex, self.attrs, self.marks = weights, regex, attrs, marks
        self.types, self.maxword, self.npar, self.nent = types, maxword, npar, nent
        self.empties, self.dupsec, self.pncls, self.lefttags = empties, dupsec, ncls, lefttags

    def word(self, lo=1, hi=None, marks=None):
        r = self.rng
        n = r.randint(lo, hi or self.maxword)
        w = [r.choice(self.chars) for _ in range(n)]
        if (self.marks if marks is None else marks) and r.random() < 0.15 and w:
            pos = r.randint(1, len(w))
            if self.lefttags and r.random() < 0.25:
                w.insert(0, r.choice([mM, mA]))
            else:
                w.insert(pos, r.choice([mB, mB, mJ, mM, mA]))
        return w

    def tagseq(self, tags, lo=0, hi=2):
        return [tags.id(self.rng.choice(self.tagnames)) for _ in range(self.rng.randint(lo, hi))]

    def rexp(self, depth=2):
        r = self.rng
        k = r.choice(["chr", "cls", "chr", "cat", "alt", "star", "plus", "opt"]) if depth > 0 else "chr"
        if k == "chr":
            return {"k": "chr", "c": r.choice(self.chars + ([ord("."), ord("-"), ord("?")] if r.random() < 0.2 else []))}
        if k == "cls":
            if r.random() < 0.4:
                a = r.choice(self.chars)
                b = a + r.randint(0, 3)
                extra = [r.choice(self.chars)] if r.random() < 0.5 else []
                return {"k": "cls", "cs": sorted(set(list(range(a, b + 1)) + extra)),
                        "txt": "".join(map(_rc, extra)) + _rc(a) + "-" + _rc(b)}
            return {"k": "cls", "cs": sorted(set(r.choice(self.chars) for _ in range(r.randint(1, 3))))}
        if k in ("cat", "alt"):
            return {"k": k, "xs": [self.rexp(depth - 1) for _ in range(r.randint(2, 3))]}
        return {"k": k, "x": self.rexp(depth - 1)}

    def ncls(self):
        """[^...] over all characters up to 255: most are excluded, so that few strings result"""
        r = self.rng
        a = r.choice([44, 64, 96, 200, 252])
        b = a + r.randint(2, 5)
        cs = [9, 10, 13] + list(range(32, a + 1)) + list(range(b, 256))
        return {"k": "ncls", "cs": cs, "txt": "&\t\n\r".replace("&", "") + " -" + _rc(a) + (_rc(b) + "-\u00ff" if b < 256 else "")}

    def deep(self, depth):
        """expressions with many classes, alternatives, repetitions and parentheses"""
        r = self.rng
        k = r.choice(["cat", "cat", "alt", "star", "plus", "opt", "cls", "chr"]) if depth > 0 else r.choice(["chr", "cls"])
        if k in ("cat", "alt"):
            x = {"k": k, "xs": [self.deep(depth - 1) for _ in range(r.choice([2, 2, 3]))]}
        elif k in ("star", "plus", "opt"):
            x = {"k": k, "x": self.deep(depth - 1)}
        elif k == "cls":
            x = {"k": "cls", "cs": sorted(r.sample(self.chars, r.randint(1, min(2, len(self.chars)))))}
        else:
            x = {"k": "chr", "c": r.choice(self.chars)}
        if r.random() < 0.15:
            x["par"] = True
        return x

    def entry(self, tags, pars, in_par):
        r = self.rng
        els = []

        def text():
            x = r.random()
            if x < 0.4:
                return I(self.word())
            if x < 0.9:
                l = self.word(0 if in_par or els else 1)
                rr = self.word(0 if r.random() < 0.5 else 1)
                if not in_par and not rr:
                    rr = self.word(1)
                rr = rr + self.tagseq(tags)
                if self.lefttags and r.random() < self.lefttags:
                    l = l + self.tagseq(tags, 1, 3)
                if self.marks and r.random() < 0.08 and l and rr:
                    l = l + [mG] + self.word(1, 2, False)
                    rr = rr + [mG] + self.word(1, 2, False)
                return P(l, rr)
            return IG(self.word(1, 2, False))
        shape = r.random()
        if pars and shape < 0.5:
            p = PAR(r.choice(pars))
            z = r.random()
            if z < 0.5:
                els += [text(), p]
            elif z < 0.7:
                els += [p, text()]
            elif z < 0.8:
                els += [p]
            elif z < 0.9:
                els += [text(), p, text()]
            else:
                els += [text(), p, PAR(r.choice(pars))]
        else:
            for _ in range(1 if r.random() < 0.8 else 2):
                els.append(text())
        if self.regex and r.random() < 0.25:
            els.insert(r.randint(0, len(els)), RE(self.rexp() if r.random() >= self.pncls else self.ncls()))
            if r.random() < 0.4:
                els = [e for e in els if e["t"] == "re"]
        if self.empties and r.random() < 0.06:
            els = []
        e = entry(els)
        if r.random() < 0.2:
            e["r"] = r.choice(["LR", "RL"])
        if self.attrs:
            if r.random() < 0.06:
                e["ignore"] = True
            for a in ("alt", "v", "vl", "vr"):
                if r.random() < 0.12:
                    e[a] = r.sample(["x", "y", "z"], r.choice([1, 1, 2, 2, 3]))
        if self.weights and r.random() < 0.5:
            e["w"] = r.choice([125000, 250000, 500000, 1000000, 1500000, 2000000, 3125000, -500000, 10000000, 7000, 3, 1234567])
        return e

    def dix(self, tags):
        r = self.rng
        d = {"letters": sorted(set(r.sample(self.chars, r.randint(1, len(self.chars))))), "sdefs": [], "pardefs": [], "sections": []}
        names = []
        for i in range(r.randint(0, self.npar)):
            n = "p%d" % i + r.choice(["", "__n", "/s__v"])
            es = [self.entry(tags, names, True) for _ in range(r.randint(1, 3))]
            d["pardefs"].append({"n": n, "es": es})
            names.append(n)
        ids = ["main", "extra", "aux"]
        for i in range(r.randint(1, 3) if len(self.types) > 1 else r.choice([1, 1, 1, 2])):
            es = [self.entry(tags, names, False) for _ in range(r.randint(1, self.nent))]
            d["sections"].append({"id": ids[i], "type": r.choice(self.types), "es": es})
            if i > 0 and self.dupsec and r.random() < 0.3:      # a section continued under the same name
                d["sections"][-1].update(id=ids[0], type=d["sections"][0]["type"])
        for t in self.tagnames:
            d["sdefs"].append(tags.id(t))
        return d


def sep_word(r, tags, chars="ab", wild=0.4):
    """a word of a separable dictionary: lemma, tags and what ends it; wildcards never follow each other"""
    w = [mC] if r.random() < wild else [ord(r.choice(chars)) for _ in range(r.randint(1, 2))] + ([mC] if r.random() < 0.1 else [])
    t = [tags.id(r.choice(("n", "v", "sg"))) for _ in range(r.randint(0, 2))]
    if r.random() < wild:
        t.insert(r.randint(0, len(t)), mT)
    return w + t


def sep_dix(r, tags, weights):
    """a separable dictionary"""
    wild = r.choice([0, 0.4])
    pool = [sep_word(r, tags, wild=wild) for _ in range(3)]

    def end():
        return [r.choice([mD] * 8 + [mDs, mDn])]

    def side():
        s = list(r.choice(pool))
        for _ in range(r.choice([0, 1])):
            s = s + end() + r.choice(pool)
        if r.random() < 0.1:
            s.insert(r.randint(1, len(s)), mF)
        return s + (end() if r.random() < 0.7 else [])

    def apart(l, q):
        """no wildcard that repeats follows itself"""
        z = [(l[i] if i < len(l) else 0, q[i] if i < len(q) else 0) for i in range(max(len(l), len(q)))]
        return all(a != b or not {mT, mC} & set(a) for a, b in zip(z, z[1:]))

    def pair():
        while True:
            l = side()
            if r.random() < 0.4:
                return I(l)
            q = list(l)
            for _ in range(r.randint(1, 2)):
                k = r.randrange(len(q))
                q[k:k + 1] = r.choice([[], [ord("c")], [ord("c"), ord("d")], [tags.id("n")], [mD], [q[k], ord("c")]])
                if not q:
                    q = side()
            if apart(l, q):
                return P(l, q)
    pars = []
    if r.random() < 0.4:
        pars = [{"n": "p", "es": [entry([I([ord("e"), mT, tags.id("sg")])] if r.random() < 0.3 else [P([tags.id("sg")], [tags.id("n"), ord("x")])])
                                  for _ in range(2)]}]
    secs = []
    for k in range(r.choice([1, 1, 2])):
        es = []
        first = None
        for _ in range(r.randint(1, 6)):
            e = entry([pair()], w=r.choice([0, 250000, 1500000]) if weights else 0, r=r.choice(["", "", "", "LR", "RL"]))
            if pars and r.random() < 0.3:
                e["els"] = [I([ord(r.choice("ab"))]), PAR("p")] + ([I([ord("a")])] if r.random() < 0.5 else [])
            elif first is not None and r.random() < 0.4 and len(first) > 2:
                # one that begins like another
                e["els"] = [I(first[:r.randint(1, len(first) - 1)])]
            elif e["els"][0]["t"] == "i":
                first = e["els"][0]["l"]
            es.append(e)
        secs.append({"id": ("main", "extra")[k], "type": "standard", "es": es})
    return {"letters": S("ab" if r.random() < 0.5 else "abc"), "sdefs": [tags.id(t) for t in ("n", "v", "sg")], "pardefs": pars, "sections": secs}


def large_dix(r, tags):
    """few entries, but long ones, one within the other, and a word with many analyses"""
    ts = [tags.id(x) for x in ("n", "v", "pl", "sg", "x", "y1", "y2", "y3", "y4", "y5", "y6", "y7")]
    chars = r.choice(["ab", "abc", "abé", "aB"])

    def word(lo, hi, gap=0.06):
        w = [mB if 0 < k and r.random() < gap else ord(r.choice(chars)) for k in range(r.randint(lo, hi))]
        return w if w[-1] != mB else w + [97]
    base = word(20, 70)
    es = []
    for k in sorted({r.randint(1, len(base)) for _ in range(r.randint(2, 6))}):
        l = base[:k]
        if l[-1] == mB:
            l = l + [98]
        es.append(entry([P(l, word(5, 60) + r.sample(ts, r.randint(1, 9)))]))
    amb = word(2, 4, 0)
    for k in range(r.randint(8, 26)):
        es.append(entry([P(amb, word(1, 3, 0) + r.sample(ts, r.randint(1, 3)))], w=r.choice([0, 0, 500000, 250000]) if k % 2 else 0))
    r.shuffle(es)
    return {"letters": [ord(x) for x in chars], "sdefs": ts, "pardefs": [], "sections": [{"id": "main", "type": "standard", "es": es}]}


def dix_has_re(d):
    return any(el["t"] == "re" for grp in d["pardefs"] + d["sections"] for e in grp["es"] for el in e["els"])
