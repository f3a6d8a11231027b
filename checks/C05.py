"""C05: morphological analysis by longest match."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
import anal
from proc import Proc, cps


def one(ctx, i):
    if i % 20 == 18:
        return anal.large(ctx, i)
    if i % 5 == 4:       # dense dictionaries over two letters: many overlapping matches
        return anal.setup(ctx, i, chars="ab", maxword=4, nent=12, marks=False, dirs=("LR",))
    return anal.setup(ctx, i)


def replay_model(ctx):
    """every behaviour of the design model, replayed on the real lt-proc"""
    gen = ctx.behaviours("MCAnalysis")
    S = D.S
    n = -1

    def e(l, r, w=0):
        return D.entry([D.P(l, r)], w=w)
    b = D.mB
    dicts = [
        [("standard", [e(S("a"), S("a") + [n]), e([97, b, 98], S("ab") + [n]), e(S("bb"), S("b") + [n])])],
        [("inconditional", [e(S("a"), S("a") + [n])]),
         ("standard", [e(S("aba"), S("b") + [n]), e(S("A"), S("Ab") + [n], 500), e(S("a."), S("x") + [n])])],
        [("postblank", [e(S("ab"), S("a") + [n])]), ("preblank", [e(S("b"), S("b") + [n])]),
         ("standard", [e([97, 98, b, 97], S("x^") + [n])]), ("inconditional", [e(S("."), S(".") + [n])])],
        [("standard", [e(S("^a"), S("^a") + [n]), e([97, b, 97, b, 97], S("a") + [n]), e(S("aa"), [D.mA, 97, n])])],
    ]
    items = []
    for k, secs in enumerate(dicts):
        c = Proc(ctx, "m%d" % k)
        c.tags.id("n")
        d = {"letters": S("ab"), "sdefs": [n], "pardefs": [], "sections": [{"id": t, "type": t, "es": es} for t, es in secs]}
        f = c.compile_quiet(d, c.opt())
        beh = [g for g in gen if g[0] == k + 1]
        if f is None:
            items.append(("m%d" % k, "compiled", "not compiled", "dictionary %d of MCAnalysis" % (k + 1)))
            continue
        c.stream(["-z", f], ["".join(map(chr, g[1])) for g in beh])
        items.append(("m%d" % k, "ok", c.status, "status of lt-proc -z on all texts of MCAnalysis"))
        for g, ch in zip(beh, c.chunks):
            items.append(("m%d" % k, g[2], ch["out"], "dictionary %d of MCAnalysis, text %r" % (k + 1, "".join(map(chr, g[1])))))
    ctx.expect("MCAnalysis", items)
    ctx.notes.append("%d behaviours of MCAnalysis replayed on lt-proc" % len(gen))


def body(ctx):
    replay_model(ctx)
    ctx.traces("TraceProc", one, ctx.size(1600, 16000))


if __name__ == "__main__":
    sys.exit(core.main("C05", body))
