"""C17: one unified compilation, restricted afterwards, gives what direct compilation gives."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
from chain import Chain, gen_dix


def one(ctx, i):
    r = ctx.rng(i)
    c = Chain(ctx, "s%d" % i)
    d = gen_dix(c, r, attrs=True, regex=False, maxword=2, nent=3, empties=r.random() < 0.2, weights=r.random() < 0.5)
    ok = c.compile("u", d, c.opt(dir="U"))
    for k in range(3):
        opt = c.opt(dir=r.choice(["LR", "RL"]))
        for a in ("alt", "v", "vl", "vr"):
            if r.random() < 0.5:
                opt[a] = r.choice("xyz")
        if ok:
            c.restrict("r%d" % k, "u", opt, r.random() < 0.5)
        if r.random() < 0.4:
            opt = dict(opt)
            opt["vl" if opt["dir"] == "LR" else "vr"] = ""      # lt-comp refuses it
            c.compile("d%d" % k, d, opt)
    c.about = D.dix_xml(d, c.tags).replace("\n", "")
    return c


def att(ctx, i):
    """marks anywhere, with weights of their own"""
    r = ctx.rng("att", i)
    c = Chain(ctx, "a%d" % i)
    marks = ["<r:LR>", "<r:RL>", "<alt:x>", "<alt:y>", "<v:x>", "<v:y>", "<vl:x>", "<vl:y>", "<vr:x>", "<vr:y>"]
    marks = r.sample(marks, r.randint(1, 4))
    for m in marks:
        c.tags.id(m)
    n = r.randint(2, 5)
    ls = []
    for k in range(r.randint(n, n + 4)):
        a = k if k < n - 1 else r.randrange(n - 1)
        b = a + 1 if k < n - 1 else r.randint(a + 1, n - 1)
        l, q = r.choice(["a", "b", "<n>", "@0@"]), r.choice(["a", "b", "<n>", "@0@"])
        if r.random() < 0.4:
            l = q = r.choice(marks)
        ls.append({"k": "arc", "s": a, "d": b, "l": D.S(l), "r": D.S(q), "w": r.choice([0, 0, 500000, 2250000, 3])})
    for k in [n - 1] + [k for k in range(1, n - 1) if r.random() < 0.3]:
        ls.append({"k": "fin", "s": k, "w": r.choice([0, 0, 700000])})
    render = lambda x: ("%d\t%d\t%s\t%s\t%.6f\n" % (x["s"], x["d"], "".join(map(chr, x["l"])), "".join(map(chr, x["r"])), x["w"] / 1000000)
                        if x["k"] == "arc" else "%d\t%.6f\n" % (x["s"], x["w"] / 1000000))
    c.about = " ; ".join(render(x).strip() for x in ls)
    if c.att("u", ls, {"dir": "LR", "hfst": False, "split": False, "max": c.max}, render):
        for k in range(2):
            opt = c.opt(dir=r.choice(["LR", "RL"]))
            for a in ("alt", "v", "vl", "vr"):
                if r.random() < 0.5:
                    opt[a] = r.choice("xy")
            c.restrict("r%d" % k, "u", opt, r.random() < 0.5)
    return c


def body(ctx):
    ctx.traces("TraceToolchain", one, ctx.size(2000, 20000))
    ctx.traces("TraceToolchain", att, ctx.size(800, 8000))


if __name__ == "__main__":
    sys.exit(core.main("C17", body))
