"""C27: numbers, weights, strings and alphabets are read back from files as they were written."""
import math, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
from proc import Proc
from chain import Chain, gen_dix

CHARS = [0x61, 0x7a, 0x3f, 0x40, 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x3fff, 0x4000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10400, 0x1f600, 0x10ffff]


WIDE = "".join(map(chr, list(range(97, 123)) + list(range(224, 247)) + list(range(1072, 1120)) + list(range(66600, 66640)) + list(range(945, 962))))


class Cod:
    def __init__(self, sid):
        self.sid, self.calls, self.skip, self.events, self.about, self.status = sid, [], False, [1], "", "ok"

    def scenario(self):
        return {"id": self.sid, "calls": self.calls, "status": self.status, "about": self.about}


def weight(x):
    if math.isinf(x):
        return ["inf"] if x > 0 else ["-inf"]
    m, e = math.frexp(x)
    return [int(m * (1 << 30)), e]


def wback(s):
    x = float(s)
    if math.isinf(x):
        return weight(x)
    m, e = math.frexp(x)
    v = m * (1 << 30)
    return [int(v) if v == int(v) else [repr(x)], e]


def units(cps):
    b = "".join(map(chr, cps)).encode("utf-16-le")
    return list(struct.unpack("<%dH" % (len(b) // 2), b))


def number(r, top):
    b = r.randint(0, top)
    return min((1 << top) - 1, max(0, r.choice([(1 << b) - 1, 1 << b, (1 << b) + 1, r.getrandbits(b), r.getrandbits(b)])))


def real(r):
    k = r.random()
    if k < 0.1:
        return r.choice([0.0, math.inf, -math.inf, 1.0, -1.0, 0.5, -0.5, 0.1, 1e-300, 5e-324, 1.7976931348623157e308, 2.0 ** 26, 2.0 ** -26])
    if k < 0.5:
        return r.choice([1, -1]) * r.randint(0, 100000) / 1000.0
    return r.choice([1, -1]) * math.ldexp(r.random(), r.randint(-1060, 1020) if k > 0.8 else r.randint(-40, 40))


def string(r):
    return [r.choice(CHARS) if r.random() < 0.7 else r.choice([r.randint(1, 0xd7ff), r.randint(0xe000, 0x10ffff)])
            for _ in range(r.choice([0, 1, 2, 3, 5, 8, 63, 64] if r.random() < 0.2 else [0, 1, 2, 3, 5]))]


def seq(x):
    return [int(y) for y in x.split()]


def one(ctx, i):
    r = ctx.rng(i)
    c = Cod("s%d" % i)
    lines = []
    for _ in range(30):
        k = r.choice(["int", "double", "string", "ser", "ser", "alphabet"])
        if k == "int":
            v = number(r, 30)
            c.calls.append({"kind": "int", "value": v})
            lines.append("int\t%d" % v)
        elif k == "double":
            v = real(r)
            c.calls.append({"kind": "weight", "value": weight(v)})
            lines.append("double\t%s" % repr(v))
        elif k == "string":
            v = string(r)
            c.calls.append({"kind": "str", "value": v})
            lines.append("string\t" + " ".join(map(str, v)))
        elif k == "ser":
            t = r.choice(["i32", "u64", "str", "double"])
            if t == "i32":
                v = r.choice([1, -1]) * number(r, 31)
                c.calls.append({"kind": "ser", "value": list((v & (1 << 64) - 1).to_bytes(8, "big")), "t": t})
            elif t == "u64":
                v = number(r, 64)
                c.calls.append({"kind": "ser", "value": list(v.to_bytes(8, "big")), "t": t})
            elif t == "double":
                v = repr(real(r))
                c.calls.append({"kind": "ser", "value": list(struct.pack(">d", float(v))), "t": t})
            else:
                v = string(r)
                c.calls.append({"kind": "serstr", "value": units(v), "t": t})
                v = " ".join(map(str, v))
            lines.append("ser\t%s\t%s" % (t, v))
        else:
            tags = [string(r)[:6] for _ in range(r.choice([0, 1, 2, 5, 5, 5, 70]))]
            tags = [t for t in tags if t and 60 not in t and 62 not in t]
            nt = len({tuple(t) for t in tags})
            sym = lambda: r.choice([0, r.choice(CHARS), r.choice(CHARS), r.randint(-nt, 0)])
            pairs = [[sym(), sym()] for _ in range(r.choice([0, 1, 3, 10, 10, 10, 70]))]
            how = r.choice(["file", "ser"])
            c.calls.append({"kind": "alphabet", "how": how, "tags": tags, "pairs": pairs})
            lines.append("alphabet\t%s\t%s\t%s" % (how, "|".join(" ".join(map(str, [60] + t + [62])) for t in tags),
                                                   "|".join("%d,%d" % tuple(p) for p in pairs)))
    rc, so, se = ctx.run("lt-harness", ["coding"], stdin="\n".join(lines) + "\n")
    out = so.decode().split("\n")[:-1]
    c.status = "ok" if rc == 0 and len(out) == len(lines) else "fail"
    for x, o in zip(c.calls, out):
        p = o.split("\t")
        if x["kind"] == "alphabet":
            for k, s in (("before", p[0]), ("after", p[1])):
                n, ts, ps = s.split(":")
                x[k] = {"size": int(n), "tags": [[int(y.split("=")[0]), seq(y.split("=")[1])] for y in ts.split("|")[:-1]],
                        "pairs": [[int(y.split("=")[0]), [int(z) for z in y.split("=")[1].split(",")]] for y in ps.split("|")[:-1]]}
            x["bytes"] = seq(p[2])
        elif x["kind"] in ("ser", "serstr"):
            t = x.pop("t")
            x["bytes"] = x["bytes2"] = seq(p[0])
            x["instep"] = True
            x["back"] = x["back2"] = (units(seq(p[1])) if t == "str" else list(struct.pack(">d", float(p[1]))) if t == "double"
                                      else list((int(p[1]) & (1 << 64) - 1).to_bytes(8, "big")))
        elif x["kind"] == "str":
            x["bytes"] = x["bytes2"] = seq(p[0])
            x["back"] = x["back2"] = seq(p[1])
            x["instep"] = p[2] == "1"
        else:
            x["bytes"], x["bytes2"] = seq(p[0]), seq(p[1])
            f = int if x["kind"] == "int" else wback
            x["back"], x["back2"] = f(p[2]), f(p[3])
            x["instep"] = p[4] == "1"
    if c.status != "ok":
        c.calls = c.calls[:len(out)]
    c.about = "lt-harness coding: " + "; ".join(lines)
    return c


def big(ctx, i):
    """a dictionary with so many states, tags and pairs that every length of number occurs in its file; only the
    entries that occur in the texts can take part in their analysis, so the specification gets only those"""
    r = ctx.rng("big", i)
    c = Proc(ctx, "b%d" % i)
    wide = i % 4 == 1                          # thousands of pairs of different letters
    chars = WIDE if wide else r.choice(["abcdefghijkl", "abдеß😀𐐨κé", "ab"])
    tags = [c.tags.id("t%d" % k) for k in range(r.choice([3, 70, 300, 5000]))]
    es, seen = [], set()
    for _ in range(r.choice([5000, 12000] if wide else [300, 3000, 12000])):
        w = "".join(r.choice(chars) for _ in range(r.randint(3, 14 if chars == "ab" else 8)))
        if w in seen:
            continue
        seen.add(w)
        ch = r.choice(chars)
        o = "".join(r.choice(chars) for _ in w) if wide else ch + w[1:]
        es.append((w, D.entry([D.P(D.S(w), D.S(o) + [r.choice(tags), r.choice(tags)])], w=r.choice([0, 0, 500, 1250, 70000]))))
    d = {"letters": D.S(chars), "sdefs": tags, "pardefs": [], "sections": [{"id": "m", "type": "standard", "es": [e for _, e in es]}]}
    opt = c.opt(dir="LR")
    b = c.compile_quiet(d, opt)
    if b is None:
        c.status = "fail"
        c.chunks = [{"in": [97], "out": [0]}]
        texts = ["a"]
    else:
        texts = [" ".join(r.choice(es)[0] + (r.choice(chars) if r.random() < 0.2 else "") for _ in range(6)) for _ in range(10)]
        c.stream(["-z", "-W", b], texts)
    words = {w for t in texts for w in t.split(" ")}
    d = dict(d, sections=[{"id": "m", "type": "standard", "es": [e for w, e in es if w in words]}])
    c.extra = {"dix": d, "opt": opt, "flags": {"cs": False, "w": False, "ign": [173], "N": 1000, "L": 1000, "W": True}}
    c.about = "lt-proc -z -W with a dictionary of %d entries, %d tags" % (len(es), len(tags))
    return c


def old(ctx, i):
    """the tools read files without headers, as earlier versions wrote them"""
    r = ctx.rng("old", i)
    c = Chain(ctx, "o%d" % i)
    a, b = (gen_dix(c, r, attrs=False, regex=False, weights=False) for _ in range(2))
    c.about = D.dix_xml(a, c.tags).replace("\n", "") + " | " + D.dix_xml(b, c.tags).replace("\n", "")
    if c.compile("a", a) and c.compile("b", b):
        done = [c.old_format(c.files[x]) for x in "ab" if r.random() < 0.7]
        if any(done):
            k = r.choice(["invert", "append", "print", "compose", "copy"])
            if k == "invert":
                c.invert("x", "a")
            elif k == "append":
                c.append("x", "a", "b", keep=r.random() < 0.5)
            elif k == "print":
                c.print("a")
            elif k == "compose":
                c.compose("x", "a", "b")
            else:
                c.restrict("x", "a", c.opt(dir="LR"))
    return c


def oldproc(ctx, i):
    r = ctx.rng("oldproc", i)
    c = Proc(ctx, "p%d" % i)
    d = gen_dix(c, r, attrs=False, regex=False, weights=False, types=("standard", "inconditional"))
    opt = c.opt(dir="LR")
    c.about = D.dix_xml(d, c.tags).replace("\n", "")
    b = c.compile_quiet(d, opt)
    if b is None or not c.old_format(b):
        c.skip = True
        return c
    ch = [chr(x) for x in d["letters"]] or ["a"]
    c.stream(["-z", b], ["".join(r.choice(ch + [" "]) for _ in range(r.randint(1, 10))) for _ in range(6)])
    c.extra = {"dix": d, "opt": opt, "flags": {"cs": False, "w": False, "ign": [173], "N": 1000, "L": 1000, "W": False}}
    return c


def body(ctx):
    ctx.traces("TraceToolchain", old, ctx.size(300, 3000))
    ctx.traces("TraceProc", oldproc, ctx.size(100, 1000))
    ctx.traces("TraceProc", big, ctx.size(16, 150))
    ctx.model("MCCoding", "MCCoding3.cfg" if ctx.thorough() else None)
    ctx.traces("TraceCoding", one, ctx.size(800, 8000))


if __name__ == "__main__":
    sys.exit(core.main("C27", body))
