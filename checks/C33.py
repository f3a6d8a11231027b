"""C33: the stream reader takes every stream apart without loss."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core


class Session:
    skip = False
    events = [1]

    def __init__(self, sid, **kw):
        self.d = dict(kw, id=sid, steps=[], status="ok", about="")

    def scenario(self):
        return self.d


def cps(s):
    return [ord(x) for x in s]


def text(r):
    chars = r.choice(["ab", "aé", "a😀", "a.*", "ab#@", "a+=%"])

    def esc():
        return "\\" + r.choice("^$/[]{}<>\\@*#a😀")

    def plain(n):
        return "".join(esc() if r.random() < 0.15 else r.choice(chars) for _ in range(r.randint(0, n)))

    def tag():
        return "<" + r.choice(["n", "v", "sg", "x:y", "a b", "\\>", "é", "n^", "[", "{"]) + ">"

    def blank():
        x = r.random()
        if x < 0.5:
            return r.choice([" ", "\n", ".", "  ", "a", "]", "$", "/", "<b>", "{", ""])
        if x < 0.75:
            return "[" + r.choice(["", "<b>", "a^b$", "\\]", "\\[", "x y", "\\\\", "😀", "/"]) + "]"
        if x < 0.9:
            return esc()
        return "[[" + r.choice(["t:b:1", "", "a]b", "\\]]", "^x$"]) + "]]"

    def reading():
        s = r.choice(["", "", "", "*", "@", "#", "=", "%"]) + plain(3) + "".join(tag() for _ in range(r.choice([0, 1, 1, 2])))
        if r.random() < 0.15:
            s += "{" + r.choice(["^a<n>$", "^a$ ^b$", "", "\\}", "x/y"]) + "}"
        if r.random() < 0.15:
            s += r.choice(["# b", "+a<n>", "<n", "\\"]) if r.random() < 0.9 else ""
            if s.endswith("\\"):
                s += "$"
        return s

    def unit():
        w = r.random()
        return ("[[" + r.choice(["t:i:2", "a; b", "x]y", "", "\\]"]) + "]]" if w < 0.2 else "") + \
            "^" + "/".join(reading() for _ in range(r.choice([1, 1, 2, 3]))) + "$"
    s = "".join(r.choice([unit, unit, blank, blank, lambda: "\0"])() for _ in range(r.randint(0, 8)))
    if r.random() < 0.15:
        s = s[:r.randint(0, len(s))]
    if r.random() < 0.15 and s:
        k = r.randint(0, len(s))
        s = s[:k] + "\0" + s[k:]
    # a backslash that escapes nothing (before a null or at the end) is outside the stream format
    out, i = "", 0
    while i < len(s):
        if s[i] == "\\":
            if i + 1 < len(s) and s[i + 1] != "\0":
                out += s[i:i + 2]
                i += 2
                continue
        else:
            out += s[i]
        i += 1
    return out


def one(ctx, i):
    r = ctx.rng(i)
    s = text(r)
    tags = [cps("<%s>" % x) for x in r.sample(["n", "v", "sg", "x:y", "a b", "é"], r.randint(0, 4))]
    how = r.choice(["none", "keep", "add", "add"])
    c = Session("s%d" % i, input=cps(s), tags=tags, add=how == "add", alpha=how != "none")
    f = ctx.tmp("stream")
    with open(f, "wb") as o:
        o.write(s.encode())
    rc, so, se = ctx.run("lt-harness", ["readstream", f, how] + [" ".join(map(str, t)) for t in tags])
    os.unlink(f)
    c.d["about"] = "%s %r" % (how, s)
    if rc != 0:
        c.d["status"] = "fail"
    L = lambda x: [int(y) for y in x.split()]
    for line in so.decode().split("\n")[:-1]:
        x = line.split("\t")
        rs = []
        for y in x[5:]:
            m, t, sy = y.split(";")
            rs.append({"mark": int(m), "content": L(t), "symbols": [L(z) for z in sy.split(",")[:-1]]})
        c.d["steps"].append({"blank": L(x[0]), "wblank": L(x[1]), "chunk": L(x[2]), "null": x[3] == "1", "eof": x[4] == "1", "readings": rs})
    return c


def body(ctx):
    ctx.traces("TraceReader", one, ctx.size(3000, 40000))


if __name__ == "__main__":
    sys.exit(core.main("C33", body))
