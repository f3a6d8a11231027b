"""C19: lt-merge joins the marked units without losing text, and lt-merge -u takes them apart again."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
from proc import Proc, cps, esc

BEG, END, MERGED = "<MERGE_BEG>", "<MERGE_END>", "<MERGED>"


def form(r):
    s = "".join(r.choice("aabÉß😀 «,") if r.random() < 0.85 else r.choice("[]{}^$/\\@<>*#=%'") for _ in range(r.randint(1, 4)))
    e = esc(s)
    if r.random() < 0.1:
        e = "\\" + e if e[0] != "\\" else e          # an escape that is not needed
    return e


def blank(r):
    z = r.random()
    if z < 0.35:
        return ""
    if z < 0.7:
        return " "
    return "".join(r.choice([" ", "[x]", "[\\]]", "[<a href='\\[b'>]", "\\^", "\\$", "\\\\", ",", "é", "😀", "\n", "[[x]] ", "[^a$]", "/"]) for _ in range(r.randint(1, 3)))


def unit(r, u, p):
    """one unit; u: for unmerging"""
    f = form(r)
    if r.random() < 0.05 and not u:
        return r.choice(["^$", "^*%s$" % f.lstrip("*#=%@"), "^%s$" % f])
    tags = "".join(r.choice(["<n>", "<sg>", "<é>"]) for _ in range(r.randint(0, 2)))
    if u:
        if r.random() < p:
            lem = form(r) if r.random() < 0.3 else f
            if r.random() < 0.2:
                return "^%s/%s%s$" % (lem, f, tags + MERGED)
            return "^%s%s/%s$" % (lem, MERGED + tags, f)
        return "^%s%s/%s$" % (f, tags, form(r))
    k = (BEG if r.random() < p else "") + (END if r.random() < p else "")
    rs = [f]
    for i in range(r.randint(1, 3)):
        rs.append(r.choice(["", "", "", "", "*", "@", "#", "="]) + form(r).lstrip("*@#=%") + tags)
    j = r.randrange(1, len(rs))
    rs[j] += k if r.random() < 0.7 else ""
    if k and k not in rs[j]:
        rs[-1] += k
    if r.random() < 0.2:
        rs[-1] += "+" + form(r) + "<n>"
    return "^%s$" % "/".join(rs)


def text(r, u):
    p = r.choice([0.1, 0.3, 0.5])
    s = ""
    for _ in range(r.choice([0, 1, 2, 3, 5, 8, 20])):
        s += blank(r) + (r.choice(["[[t:b:x]]", "[[t\\]]]", "[[t:i:é; t:b:y]]"]) if r.random() < 0.2 else "") + unit(r, u, p)
    return s + blank(r)


def one(ctx, i):
    r = ctx.rng(i)
    u = i % 3 == 2
    c = Proc(ctx, "s%d" % i)
    c.extra = {"flags": {"u": u}}
    texts = [text(r, u) for _ in range(r.choice([1, 2, 4]))]
    args = (["-u"] if u else []) + (["-z"] if r.random() < 0.3 else [])
    how = r.random()
    c.about = "lt-merge " + " ".join(args) + " (%.2f) %r" % (how, texts)
    if how < 0.5:
        c.stream(args, texts, tool="lt-merge", last_null=False)
        return c
    # up to the end of the input, and with files
    data = "\0".join(texts)
    fi = c.out("in") if how > 0.7 else None
    fo = c.out("out") if how > 0.85 else None
    if fi:
        with open(fi, "w", encoding="utf-8", newline="") as f:
            f.write(data)
    rc, so, se = ctx.run("lt-merge", args + [x for x in (fi, fo) if x], stdin=b"" if fi else data.encode())
    if fo:
        so = open(fo, "rb").read() if os.path.exists(fo) else b"missing"
    parts = so.split(b"\0")
    c.status = "ok" if rc == 0 and len(parts) == len(texts) else "fail"
    c.chunks = [{"in": cps(t), "out": cps(o)} for t, o in zip(texts, parts)]
    return c


def replay_model(ctx):
    gen = ctx.behaviours("MCMerge")
    s = lambda x: "".join(map(chr, x))
    items = []
    for args, a, b in (([], 0, 1), (["-u"], 2, 3)):
        c = Proc(ctx, "m")
        c.stream(args, [s(g[a]) for g in gen], tool="lt-merge", last_null=False)
        items.append(("m", "ok", c.status, "status of lt-merge %s on all streams of MCMerge" % args))
        items += [("m", g[b], ch["out"], "lt-merge %s on %r" % (args, s(g[a]))) for g, ch in zip(gen, c.chunks)]
    ctx.expect("MCMerge", items)
    ctx.notes.append("%d behaviours of MCMerge replayed on lt-merge and lt-merge -u" % len(gen))


def body(ctx):
    replay_model(ctx)
    if ctx.thorough():
        ctx.model("MCMerge", "MCMerge3.cfg", timeout=800)
    ctx.traces("TraceMerge", one, ctx.size(3000, 30000))


if __name__ == "__main__":
    sys.exit(core.main("C19", body))
