"""C31: lexical forms are classified by the first pattern of a list that matches them."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core

TAGS = ["n", "v", "sg", "pl", "x"]


class Session:
    skip = False
    events = [1]

    def __init__(self, sid):
        self.sid, self.ops, self.status, self.about = sid, [], "ok", ""

    def scenario(self):
        return {"id": self.sid, "ops": self.ops, "status": self.status, "about": self.about}


def one(ctx, i):
    r = ctx.rng(i)
    c = Session("s%d" % i)
    chars = r.choice(["ab", "abc", "aé", "a𐐨", "a_ ", "ab#"])
    dense = i % 6 == 5    # many patterns that stay possible at once
    if dense:
        chars = r.choice(["a", "aa_"])
    lines = []
    ids = []
    units = []

    def lemma():
        if dense:
            l = []
            for _ in range(r.randint(4, 6)):    # (two wildcards in a row are the same as one)
                l.append(0 if r.random() < 0.6 and l[-1:] != [0] else ord(r.choice(chars)))
            return l
        if r.random() < 0.25:
            return []
        l = [ord(r.choice(chars)) for _ in range(r.randint(1, 3))]
        if r.random() < 0.3:
            l[r.randint(0, len(l) - 1)] = 0
        return l

    def tags():
        if r.random() < 0.15:
            return []
        t = [-1 - r.randrange(4) for _ in range(r.randint(1, 3))]
        if r.random() < 0.35:
            t[r.randint(0, len(t) - 1)] = 0
        return t

    def insert(n):
        l, t = lemma(), tags()
        units.append((l, t))
        c.ops.append({"op": "insert", "id": n, "lemma": l, "tags": t})
        lines.append("insert\t%d\t%s\t%s" % (n, " ".join(str(x or 42) for x in l),
                                            " ".join(str(ord(y)) for y in ".".join("*" if x == 0 else TAGS[-x - 1] for x in t))))
    labels = []
    for _ in range(r.randint(8, 16) if dense else r.randint(1, 7)):
        n = r.choice(ids) if ids and r.random() < 0.2 else r.randint(0, 9)
        if r.random() < 0.3:
            c.ops.append({"op": "begin"})
            lines.append("begin")
            for q in range(r.randint(1, 3)):
                insert(n)
            c.ops.append({"op": "end"})
            lines.append("end")
        else:
            insert(n)
            labels.append(n)
        ids.append(n)
    lines.append("build")
    words = []
    sym = lambda: ord(r.choice(chars * (8 if dense else 1) + "_# b"))
    for _ in range(25):
        w = []
        for q in range(r.choice([1, 1, 1, 2, 3])):
            if q:
                w.append(43)
            l, t = r.choice(units) if units and r.random() < 0.9 else (lemma(), tags())
            for x in l or [0]:
                w += [x] if x else [sym() for _ in range(r.randint(1, 2))]
            for x in t or [0]:
                w += [x] if x else [-1 - r.randrange(5) for _ in range(r.randint(1, 2))]
        if r.random() < 0.3:
            w += [r.choice([95, 32, 35])] + [sym() for _ in range(r.randint(0, 2))]
        if r.random() < 0.2 and w:
            w[r.randrange(len(w))] = r.choice([sym(), -1 - r.randrange(5)])
        if r.random() < 0.1:
            w = w[:r.randint(0, len(w))]
        b = r.sample(range(10), r.randint(1, 4)) if r.random() < 0.2 else []
        words.append({"op": "word", "banned": b, "word": w, "out": 0})
        lines.append("word\t%s\t%s" % (" ".join(map(str, b)), " ".join("<%s>" % TAGS[-x - 1] if x < 0 else str(x) for x in w)))
    how = r.choice(["plain", "copy", "file", "stream"])
    rc, so, se = ctx.run("lt-harness", ["patterns", how], stdin="\n".join(lines) + "\n")
    out = so.decode().split()
    if rc != 0 or len(out) != len(words):
        c.status = "fail"
    else:
        for w, o in zip(words, out):
            w["out"] = int(o)
    c.ops += words
    c.about = how + " " + " | ".join(lines)
    return c


def body(ctx):
    ctx.traces("TracePatterns", one, ctx.size(3000, 40000))


if __name__ == "__main__":
    sys.exit(core.main("C31", body))
