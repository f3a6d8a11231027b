"""Independent reader of lttoolbox binaries and of ATT text: the projection of a compiled
transducer onto its relation.  It shares no code with lttoolbox."""
import math

TAGBASE = 0


class FormatError(Exception):
    pass


class R:
    def __init__(self, data):
        self.d, self.p = data, 0

    def byte(self):
        if self.p >= len(self.d):
            raise FormatError("truncated file")
        self.p += 1
        return self.d[self.p - 1]

    def mb(self):
        u = self.byte()
        n = u >> 6
        v = u & 0x3f
        for _ in range(n):
            v = (v << 8) | self.byte()
        return v

    def long(self):
        def part():
            up = self.mb()
            if up < 0x04000000:
                return up
            low = self.mb()
            return (((up & 0x03ffffff) << 26) & 0xffffffff) | low
        m, e = part(), part()
        if m == 0xffffffff and e >= 0xfffffffe:
            return -math.inf if e == 0xfffffffe else math.inf
        sm = m - (1 << 32) if m >= 1 << 31 else m
        se = e - (1 << 32) if e >= 1 << 31 else e
        return math.ldexp(sm / 0x40000000, se)

    def string(self):
        return [self.mb() for _ in range(self.mb())]


class Fst:
    """arcs: list of (src, dst, left, right, weight); symbols are ints>0 (code points), 0 = epsilon,
    strings '<tag>' for tags"""

    def __init__(self, initial, finals, arcs, nstates):
        self.initial, self.finals, self.arcs, self.n = initial, finals, arcs, nstates


def parse(data):
    r = R(data)
    if data[:4] == b"LTTB":
        r.p = 12
    letters = r.string()
    ntags = r.mb()
    tags = ["<" + "".join(map(chr, r.string())) + ">" for _ in range(ntags)]
    npairs = r.mb()
    pairs = []
    for _ in range(npairs):
        a, b = r.mb() - ntags, r.mb() - ntags
        pairs.append((a, b))

    def sym(x):
        return tags[-x - 1] if x < 0 else x
    secs = {}
    for _ in range(r.mb()):
        name = "".join(map(chr, r.string()))
        w = False
        if data[r.p:r.p + 4] == b"LTTD":
            w = bool(data[r.p + 11] & 1)
            r.p += 12
        initial = r.mb()
        finals = {}
        base = 0
        for _ in range(r.mb()):
            base += r.mb()
            finals[base] = r.long() if w else 0.0
        ns = r.mb()
        arcs = []
        for s in range(ns):
            tb = 0
            for _ in range(r.mb()):
                tb += r.mb()
                dst = (s + r.mb()) % ns
                wt = r.long() if w else 0.0
                if tb >= len(pairs):
                    raise FormatError("label out of range")
                a, b = pairs[tb]
                arcs.append((s, dst, sym(a), sym(b), wt))
        if name in secs:
            raise FormatError("duplicate section")
        secs[name] = Fst(initial, finals, arcs, ns)
    if r.p != len(data):
        raise FormatError("trailing bytes")
    return letters, tags, secs


class TooBig(Exception):
    pass


def paths(fst, maxin=None, maxout=None, limit=20000):
    """{(in, out): min weight}, inputs/outputs as tuples of symbols (eps removed); bounded when cyclic"""
    out = {}
    adj = {}
    for s, d, a, b, w in fst.arcs:
        adj.setdefault(s, []).append((d, a, b, w))
    # restrict to useful states
    rev = {}
    for s, d, a, b, w in fst.arcs:
        rev.setdefault(d, []).append(s)
    useful = set(fst.finals)
    st = list(useful)
    while st:
        x = st.pop()
        for y in rev.get(x, []):
            if y not in useful:
                useful.add(y)
                st.append(y)
    if fst.initial not in useful:
        return {}
    best = {(fst.initial, (), ()): 0.0}
    todo = [(fst.initial, (), ())]
    while todo:
        nxt = []
        for key in todo:
            q, i, o = key
            w0 = best[key]
            for d, a, b, w in adj.get(q, []):
                if d not in useful:
                    continue
                ni = i + (a,) if a != 0 else i
                no = o + (b,) if b != 0 else o
                if maxin is not None and len(ni) > maxin:
                    continue
                if maxout is not None and len(no) > maxout:
                    continue
                if len(ni) > 400 or len(no) > 400:
                    raise TooBig()
                k2 = (d, ni, no)
                nw = w0 + w
                if k2 not in best or nw < best[k2] - 1e-9:
                    best[k2] = nw
                    nxt.append(k2)
                    if len(best) > limit * 10:
                        raise TooBig()
        todo = nxt
    for (q, i, o), w in best.items():
        if q in fst.finals:
            t = w + fst.finals[q]
            if (i, o) not in out or t < out[(i, o)]:
                out[(i, o)] = t
    return out


def aligned(fst, limit=5000):
    """list of (tuple of (left,right) labels, weight) over all paths of an acyclic transducer"""
    adj = {}
    for s, d, a, b, w in fst.arcs:
        adj.setdefault(s, []).append((d, a, b, w))
    out = []
    todo = [(fst.initial, (), 0.0)]
    while todo:
        q, p, w = todo.pop()
        if len(p) > 60 or len(out) > limit:
            raise TooBig()
        if q in fst.finals:
            out.append((p, w + fst.finals[q]))
        for d, a, b, x in adj.get(q, []):
            todo.append((d, p + ((a, b),) if (a, b) != (0, 0) else p, w + x))
    return sorted(set(out), key=str)


def deterministic_pairs(fst):
    """True if no state has two arcs with the same (label, weight) and there are no plain epsilon arcs"""
    seen = set()
    for s, d, a, b, w in fst.arcs:
        if (s, a, b, w) in seen:
            return False
        seen.add((s, a, b, w))
        if a == 0 and b == 0 and w == 0:
            return False
    return True


def parse_att(text):
    """list of Fst from lt-print output (epsilon 'ε' or '@0@')"""
    res = []
    cur = []
    fin = {}

    def flush():
        ns = 1 + max([0] + [x for a in cur for x in a[:2]] + list(fin))
        ini = cur[0][0] if cur else (min(fin) if fin else 0)
        res.append(Fst(0, dict(fin), list(cur), ns))
    for line in text.split("\n"):
        if line == "":
            continue
        if line.startswith("--"):
            flush()
            cur, fin = [], {}
            continue
        f = line.split("\t")
        if len(f) >= 4:
            def sym(x):
                if x in ("ε", "@0@", "@_EPSILON_SYMBOL_@"):
                    return 0
                if x == "@_SPACE_@":
                    return 32
                if x == "@_TAB_@":
                    return 9
                if len(x) == 1:
                    return ord(x)
                return x
            w = float(f[4]) if len(f) > 4 and f[4] != "" else 0.0
            cur.append((int(f[0]), int(f[1]), sym(f[2]), sym(f[3]), w))
        elif len(f) <= 2:
            fin[int(f[0])] = float(f[1]) if len(f) > 1 and f[1] != "" else 0.0
        else:
            raise FormatError("bad ATT line: " + line)
    flush()
    return res
