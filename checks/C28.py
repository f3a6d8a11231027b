"""C28: the operations on transducers keep or change the language exactly as they should."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core

# the pairs of a session; 0 is the empty one, and every pair's swapped one is there too
PAIRS = [(0, 0), (97, 97), (97, 98), (98, 97), (0, 97), (97, 0), (-1, -1), (-1, 97), (97, -1), (-2, -1), (-1, -2), (0x10400, 0x10400), (-2, -2)]
SWAP = [PAIRS.index((b, a)) for a, b in PAIRS[1:]]
TW = 2      # weights are halves


def wtxt(w):
    return "%g" % (w / TW)


def parse_dump(o):
    p = o.split("\t")
    arcs = []
    for a in p[2].split("|")[:-1]:
        s, d, x, y, w = a.split(",")
        arcs.append([int(s), int(d), PAIRS.index((int(x), int(y))) if (int(x), int(y)) in PAIRS else 9999, int(round(float(w) * TW))])
    return {"init": int(p[0]), "finals": [[int(f.split(",")[0]), int(round(float(f.split(",")[1]) * TW))] for f in p[1].split("|")[:-1]],
            "arcs": arcs, "size": int(p[3]), "narcs": int(p[4]), "nofinals": p[5] == "1", "weighted": p[6] == "1"}


class Alg:
    def __init__(self, sid):
        self.sid, self.events, self.lines, self.skip, self.status, self.about = sid, [], [], False, "ok", ""

    def new(self, dst, n, arcs, finals, tags):
        # linkStates keeps the least weight of equal arcs; a state is declared final once
        self.events.append({"op": "new", "dst": dst, "given": {"init": 0, "finals": finals, "arcs": arcs}})
        self.lines.append("new\t%d\t%d\t%s\t%s\t%s" % (dst, n, "|".join(map(str, tags)),
                          "|".join("%d,%d,%d,%d,%s" % (s, d, PAIRS[p][0], PAIRS[p][1], wtxt(w)) for s, d, p, w in arcs),
                          "|".join("%d,%s" % (s, wtxt(w)) for s, w in finals)))

    def op(self, name, dst, a, **kw):
        e = {"op": name, "dst": dst, "a": a}
        e.update(kw)
        self.events.append(e)
        x = ""
        if name == "union":
            x = "\t%d" % kw["b"]
        if name in ("del", "eps"):
            x = "\t" + "|".join("%d,%d" % PAIRS[p] for p in kw["syms"])
        if name == "realpha":
            x = "\t" + "|".join(map(str, kw["tags"]))
        self.lines.append("%s\t%d\t%d%s" % (name, dst, a, x))

    def seqs(self, dst, seqs):
        self.events.append({"op": "seqs", "dst": dst, "seqs": seqs})
        self.lines.append("seqs\t%d\t%s" % (dst, ";".join("|".join("@%d" % x["reg"] if x["reg"] >= 0 else "%d,%d,%s" % (PAIRS[x["pair"]] + (wtxt(x["w"]),))
                                                                   for x in s) for s in seqs)))

    def run(self, ctx):
        rc, so, se = ctx.run("lt-harness", ["algebra"], stdin="\n".join(self.lines) + "\n")
        out = so.decode().split("\n")[:-1]
        if rc != 0 or len(out) != len(self.lines):
            self.status = "fail"
        for e, o in zip(self.events, out):
            e["obs"] = parse_dump(o)
        self.events = self.events[:len(out)]
        return self

    def scenario(self):
        return {"id": self.sid, "status": self.status, "events": self.events, "max": self.max, "cyclic": self.cyclic, "swap": SWAP,
                "about": "lt-harness algebra: " + "; ".join(self.lines).replace("\t", " ")}


def one(ctx, i):
    r = ctx.rng(i)
    c = Alg("s%d" % i)
    c.cyclic = r.random() < 0.6
    c.max = 4 if c.cyclic else 6
    lab = r.sample(range(1, len(PAIRS)), r.choice([1, 2, 2, 3]))
    wts = r.choice([[0], [0], [0, 1], [0, 0, 1, 3]])
    full = {}       # registers that certainly accept something

    def auto(dst):
        n = r.randint(1, 4)
        arcs = []
        for _ in range(r.randint(1, 6)):
            s, d = r.randrange(n), r.randrange(n)
            if not c.cyclic:
                if s == d:
                    continue
                s, d = min(s, d), max(s, d)
            arcs.append([s, d, r.choice(lab + [0]), r.choice(wts)])
        fin = sorted(set(r.randrange(n) for _ in range(r.choice([1, 1, 2]))))
        finals = [[s, r.choice(wts)] for s in fin]
        reach = {0}
        for _ in range(n):
            reach |= {a[1] for a in arcs if a[0] in reach}
        full[dst] = any(f in reach for f in fin)
        tags = [-1, -2]
        r.shuffle(tags)
        c.new(dst, n, arcs, finals, tags[:r.randint(0, 2)])
    for k in range(3):
        auto(k)
    ops = ["det", "min", "min", "rev", "join", "opt", "copy", "wr", "ser", "realpha", "invert", "union", "seqs", "del", "eps", "new"]
    if c.cyclic:
        ops += ["plus", "star"]
    for _ in range(8):
        op = r.choice(ops)
        dst, a, b = r.randrange(6), r.choice(sorted(full)), r.choice(sorted(full))
        if len(c.events) > 4 and r.random() < 0.4:
            a = c.events[-1]["dst"]
        if op == "new":
            auto(dst)
            continue
        if op == "seqs":
            sq = []
            for _ in range(r.randint(1, 3)):
                s = [{"reg": r.choice(sorted(x for x in full if full[x])), "pair": 0, "w": 0} if any(full.values()) and r.random() < 0.3 else
                     {"reg": -1, "pair": r.choice(lab + [0]), "w": r.choice(wts)} for _ in range(r.randint(1, 3))]
                sq.append(s)
            c.seqs(dst, sq)
            full[dst] = True
            continue
        if op in ("rev", "join", "opt", "plus", "star", "union") and not full[a]:
            continue            # joinFinals demands a final state
        if op == "union" and not full[b]:
            continue
        f = full[a]
        if op == "union":
            c.op(op, dst, a, b=b)
        elif op in ("del", "eps"):
            c.op(op, dst, a, syms=r.sample(lab, r.randint(1, len(lab))))
            if op == "del":
                f = False
        elif op == "realpha":
            c.op(op, dst, a, tags=r.choice([[], [-2], [-2, -1], [-1]]))
        else:
            c.op(op, dst, a)
        full[dst] = f
    return c.run(ctx)


def lang(o, n):
    """language of a recorded automaton over one label, as weights of the lengths 0..n"""
    arcs, res = o["arcs"], []

    def eps(R):
        todo = list(R)
        while todo:
            s = todo.pop()
            for a in arcs:
                if a[0] == s and a[2] == 0 and R[s] + a[3] < R.get(a[1], 1 << 30):
                    R[a[1]] = R[s] + a[3]
                    todo.append(a[1])
        return R
    R = eps({o["init"]: 0})
    for _ in range(n + 1):
        e = [R[s] + w for s, w in o["finals"] if s in R]
        res.append(min(e) if e else -1)
        S = {}
        for a in arcs:
            if a[2] and a[0] in R:
                S[a[1]] = min(S.get(a[1], 1 << 30), R[a[0]] + a[3])
        R = eps(S)
    return res


def replay_model(ctx):
    gen = ctx.behaviours("MCAutomata", "MCAutomata8.cfg" if ctx.thorough() else None)
    items = []
    for part in range(0, len(gen), 500):
        c = Alg("m%d" % part)
        want = []
        for g in gen[part:part + 500]:
            arcs = [[s, d, 1 if p else 0, w] for s, d, p, w in g[0]]
            c.new(0, 2, arcs, g[1], [])
            c.op("det", 1, 0)
            c.op("min", 2, 0)
            c.op("plus", 3, 0)
            c.op("min", 4, 3)
            c.op("star", 5, 0)
            c.op("det", 6, 5)
            want += [g[2], g[2], g[2], g[3], g[3], g[4], g[4]]
        lines = list(c.lines)
        c.run(ctx)
        items.append((c.sid, "ok", c.status, "lt-harness algebra ends normally: " + "; ".join(lines[len(c.events):len(c.events) + 1])))
        for e, w, ln in zip(c.events, want, lines):
            items.append((c.sid, w, lang(e["obs"], 3), "automaton of MCAutomata, " + ln.replace("\t", " ")))
    ctx.expect("MCAutomata", items)
    ctx.notes.append("%d automata of MCAutomata replayed on the library" % len(gen))


def body(ctx):
    replay_model(ctx)
    ctx.traces("TraceAutomata", one, ctx.size(2000, 20000))


if __name__ == "__main__":
    sys.exit(core.main("C28", body))
