"""C26: lt-comp reads transducers in AT&T format."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
from chain import Chain

CH = ["a", "b", "é", "A", ".", "-", "𐐨", "😀", "0", "’", " ", "+", "ab", "a.", ".a", "aé", "Б", "б", "Σ", "𐐀", "Ŵ",
      "\u0301", "a\u0301", "\u1ab0", "\u1dc0", "\u20d0", "\ufe20"]
EPS = ["@0@", "@_EPSILON_SYMBOL_@", ""]


def render(r, h):
    """many ways to write the same lines"""
    def wt(w):
        s = "%d.%06d" % (abs(w) // 1000000, abs(w) % 1000000)
        s = ("-" if w < 0 else "") + s
        z = r.random()
        return s if z < 0.3 else s + "000" if z < 0.6 else s.rstrip("0").rstrip(".") if z < 0.8 else s.rstrip("0")

    def f(x):
        nl = "\n" if r.random() < 0.95 else "\n\n"
        if x["k"] == "sep":
            return r.choice(["--", "-", "---"]) + nl
        if x["k"] == "fin":
            if x["w"] == 0 and not x.get("first") and r.random() < 0.5:
                return "%d" % x["s"] + nl
            return "%d\t%s" % (x["s"], wt(x["w"])) + nl
        s = "%d\t%d\t%s\t%s" % (x["s"], x["d"], "".join(map(chr, x["l"])), "".join(map(chr, x["r"])))
        return s + ("" if x["w"] == 0 and r.random() < 0.5 else "\t" + wt(x["w"])) + nl
    return f


def chain(r, h, weights):
    """a single path; the only transducers here whose input may begin with neither a letter nor punctuation"""
    n = r.randint(2, 5)
    lab = lambda: r.choice(EPS + ["<n>", " ", "@_SPACE_@", "a", "ab", ".", "😀"])
    ls = [{"k": "arc", "s": k, "d": k + 1, "l": [ord(x) for x in lab()], "r": [ord(x) for x in lab()], "w": 500000 * weights} for k in range(n)]
    return ls + [{"k": "fin", "s": n, "w": 0}]


def fst(r, h, weights, cyc, split, dir):
    if split and not cyc and r.random() < 0.1:
        return chain(r, h, weights)
    n = r.randint(2, 6)
    ids = r.sample(range(12), n)
    if r.random() < 0.6:
        ids = [0] + [x for x in ids if x != 0][:n - 1]
        n = len(ids)
        if n < 2:
            ids, n = [0, 1], 2
    eps = EPS + ([] if h else ["ε"])
    chars = CH + (["ε"] if h else [])

    def lab(first):
        z = r.random()
        if z < (0.04 if first else 0.15):
            return r.choice(eps)
        if z < (0.08 if first else 0.3):
            return r.choice(["<n>", "<sg>", "<a b>", "<>"])
        if z < 0.4 and not first:
            return r.choice(["@_SPACE_@", " ", "@_TAB_@"])
        c = r.choice(chars)
        return c if not first or c[0] != " " else "a"
    lines = []
    for k in range(r.randint(n - 1, n + 4)):
        a = k if k < n - 1 else r.randrange(n - 1)
        b = r.randint(a + 1, n - 1) if not (k < n - 1 and r.random() < 0.7) else a + 1
        l, q = lab(a == 0), lab(False)
        if r.random() < 0.4:
            q = l
        if split and a == 0:           # the domain of splitting: what is read first is a letter or punctuation
            l = r.choice([x for x in chars if x != " "])
            q = lab(False)
            if dir == "RL":
                l, q = q, l
        if cyc and r.random() < 0.2 and l not in eps:
            b = r.randint(min(a, 1), a)
            if split and b == 0:
                b = 1
        w = r.choice([0, 0, 500000, 1000000, 2500000, -500000, 12345000, 3, 1234567]) if weights else 0
        lines.append({"k": "arc", "s": ids[a], "d": ids[b], "l": [ord(x) for x in l], "r": [ord(x) for x in q], "w": w})
        if r.random() < 0.15:                                      # the same arc again, with another weight
            lines.append(dict(lines[-1], w=w + (r.choice([1000000, -250000]) if weights else 0)))
    if n > 2 and r.random() < 0.15:                                # a state that leads nowhere
        l, q = lab(False), lab(False)
        lines.append({"k": "arc", "s": ids[r.randrange(1, n - 1)], "d": r.choice([x for x in range(16) if x not in ids]),
                      "l": [ord(x) for x in l], "r": [ord(x) for x in q], "w": 0})
    fin = set([n - 1] + [k for k in range(1, n) if r.random() < 0.2])
    fl = [{"k": "fin", "s": ids[k], "w": r.choice([0, 0, 700, 1500]) if weights else 0} for k in fin]
    if r.random() < 0.1:
        fl.append(dict(fl[0], w=fl[0]["w"] + 100))
    if r.random() < 0.5:
        lines = lines + fl
    else:
        rest = lines[1:] + fl
        r.shuffle(rest)
        lines = lines[:1] + rest
    return lines


def one(ctx, i):
    r = ctx.rng(i)
    c = Chain(ctx, "s%d" % i)
    c.cap = 100
    cyc = r.random() < 0.2
    if cyc:
        c.max = 4
    h = r.random() < 0.5
    weights = r.random() < 0.5
    lines = []
    o = {"dir": r.choice(["LR", "LR", "RL"]), "hfst": h, "split": r.random() < 0.7, "max": c.max}
    for k in range(r.choice([1, 1, 1, 2, 3])):
        if k:
            lines.append({"k": "sep"})
        lines += fst(r, h, weights, cyc, o["split"], o["dir"])
    R = render(r, h)
    if c.att("a", lines, o, R):
        if not c.skip:
            c.alpha("a")
            c.print("a", True)
    c.about = "".join(R(x) for x in lines).replace("\n", " ; ") + str(o)
    return c


def known(ctx):
    """known finding: an arc that reads nothing, out of the initial state, meeting one that reads punctuation"""
    c = Chain(ctx, "k0")
    A = lambda s, d, l: {"k": "arc", "s": s, "d": d, "l": [ord(x) for x in l], "r": [ord(x) for x in l], "w": 0}
    lines = [A(0, 1, "."), A(0, 1, "@0@"), A(1, 2, "a"), {"k": "fin", "s": 2, "w": 0}]
    c.att("a", lines, {"dir": "LR", "hfst": True, "split": True, "max": c.max}, render(ctx.rng(0), True))
    c.about = "0 1 . . ; 0 1 @0@ @0@ ; 1 2 a a ; 2"
    return c


def body(ctx):
    ctx.traces("TraceToolchain", one, ctx.size(2400, 24000))
    ctx.validate("TraceToolchain", [known(ctx).scenario(key="att-initial-epsilon-meets-punctuation")],
                 rerun=lambda i: known(ctx).scenario(key="att-initial-epsilon-meets-punctuation"))


if __name__ == "__main__":
    sys.exit(core.main("C26", body))
