"""C34: incomplete and invalid files are refused, all along the tool chain."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
from chain import Chain, gen_dix

# entries no direction, variant or alternative leaves out: each makes a dictionary invalid for lt-comp
WRONG = ['<e><p><l>a</l><r>b<s n="zz-undefined"/></r></p></e>', '<e><i>b<s n="zz-undefined"/></i></e>', '<e><p><l>b<s n="zz-undefined"/></l><r>b</r></p></e>',
         '<e><i>a</i><par n="zz-undefined"/></e>', '<e><i>a</i><par/></e>', '<e><q>a</q></e>', '<e><p><x>a</x></p></e>',
         '<e><p><r>a</r></p></e>', '<e><p><l>a</l></p></e>', '<e><p><r>a</r><l>a</l></p></e>', '<e><i>a</e></i>', '<e>text</e>',
         '<e><p><l>a</l><r>b</r><r>c</r></p></e>', '<e><i>a</i>', '<e><i>&foo;</i></e>', '<e><i>a & b</i></e>', '<e lm="a" lm="b"><i>a</i></e>',
         '<e><i>a<s/></i></e>', '<e><i>a<z/>b</i></e>', '<e><re>(a</re></e>', '<e><re>[a</re></e>', '<e><re>a)</re></e>', '<e><re>*a</re></e>',
         '<e><re></re></e>', '<e><re>a|</re></e>', '<e><re>()</re></e>', '<e><re>a(b|c]d)</re></e>', '<e><ig><b/>', '<e><i>a</i></e></section>']
# those that lt-expand looks at too
WRONGX = [w for w in WRONG if "zz-undefined\"/><" not in w and not re.search(r"<s |<s/|<re>.", w)]


class Hist:
    skip = False

    def __init__(self, ctx, sid):
        self.ctx, self.sid, self.ops, self.ids, self.files, self.bad, self.log = ctx, sid, [], {}, {}, {}, []
        self.dir = ctx.tmp("h")
        os.makedirs(self.dir)

    @property
    def events(self):
        return self.ops

    def scenario(self):
        return {"id": self.sid, "ops": self.ops, "about": "; ".join(self.log)}

    def path(self, f):
        return os.path.join(self.dir, f)

    def content(self, f):
        p = self.path(f)
        if not os.path.exists(p):
            return 0
        with open(p, "rb") as x:
            return self.ids.setdefault(x.read(), len(self.ids) + 1)

    def put(self, f, data, valid, what):
        with open(self.path(f), "wb") as x:
            x.write(data)
        self.ops.append({"op": "put", "file": f, "content": self.content(f), "valid": valid})
        self.log.append("%s: %s" % (f, what))

    def cut(self, f, lo, hi):
        """the file f ends before byte n, lo <= n < hi"""
        with open(self.path(f), "rb") as x:
            data = x.read()
        n = lo if hi <= lo else lo + self.r.randrange(hi - lo)
        self.put(f, data[:n], False, "cut to %d of %d bytes" % (n, len(data)))

    def later(self, f):
        """a compiled file with features that only a later version knows"""
        if not os.path.exists(self.path(f)):
            return
        with open(self.path(f), "rb") as x:
            data = x.read()
        at = [(m.start() + 4, 0 if m.group() == b"LTTB" else 1) for m in re.finditer(b"LTTB|LTTD", data)]
        if data[:4] == b"LTTB" and at:
            p, lo = self.r.choice(at)
            if len(data) < p + 8:
                return
            n = int.from_bytes(data[p:p + 8], "big") | 1 << self.r.choice([lo, lo, lo + 1, 7, 8, 31, 32, 63])
            self.put(f, data[:p] + n.to_bytes(8, "big") + data[p + 8:], False, "with unknown features %x at byte %d" % (n, p))

    def run(self, tool, args, ins, out="", careful=False, total=True, stdin=b"", room=None, text=False, placed=False):
        """room: the number of bytes that can be written to a file"""
        a = [x if x.startswith("-") or x in ("lr", "rl", "u") else self.path(x) for x in args] + ([self.path(out)] if out and not placed else [])
        if room is None:
            rc, so, se = self.ctx.run(tool, a, stdin=stdin)
        else:
            rc, so, se = self.ctx.run("/bin/sh", ["-c", 'trap "" XFSZ; n=$1; shift; exec prlimit --fsize=$n:$n "$@"', "sh", str(room),
                                                                   os.path.join(self.ctx.bin, tool)] + a, stdin=stdin)
        res = "ok" if rc == 0 else "refused" if rc in (1, -6, 134) else "crash %s" % rc
        self.ops.append({"op": "run", "tool": tool, "ins": ins, "out": out, "careful": careful, "total": total, "room": room is None, "res": res,
                         "content": 0 if text or not out else self.content(out)})
        self.log.append("%s %s%s -> %s" % (tool, " ".join(args + [out]), "" if room is None else " (room for %d bytes)" % room, res))
        return res == "ok"


def one(ctx, i):
    r = ctx.rng(i)
    h = Hist(ctx, "s%d" % i)
    h.r = r
    c = Chain(ctx, "x")
    srcs = []
    for k in range(r.choice([1, 2, 2, 3])):
        d = gen_dix(c, r, attrs=False, regex=False, types=("standard",), tagnames=("n", "sg"))
        d["spell"] = 0
        xml = D.dix_xml(d, c.tags)
        f = "s%d.dix" % k
        if r.random() < 0.25 and "</section>" in xml:
            e = r.choice(WRONG if r.random() < 0.5 else WRONGX)
            p = xml.rindex("</section>") if r.random() < 0.7 else xml.index(">", xml.index("<section")) + 1
            h.put(f, (xml[:p] + e + xml[p:]).encode(), False, "with " + e)
            srcs.append((f, e in WRONGX))
        else:
            h.put(f, xml.encode(), True, xml.replace("\n", ""))
            srcs.append((f, True))
            if r.random() < 0.3:
                b = xml.encode()
                h.cut(f, b.index(b"<dictionary") + 12, b.rindex(b">"))
    acx = open(c.write_acx([{"c": 97, "eq": [98]}, {"c": 98, "eq": [99, 97]}]), "rb").read()
    h.put("acx", acx, True, "acx")
    h.put("icx", b'<?xml version="1.0"?>\n<ignored-chars>\n<char value="a"/><char value="b"/>\n</ignored-chars>\n', True, "icx")
    h.put("rcx", b'<?xml version="1.0"?>\n<restore-chars>\n<char value="a"><restore-char value="b"/></char>\n</restore-chars>\n', True, "rcx")
    h.put("pat", b"ab<n>\n", True, "patterns")
    for f, tag in (("acx", b">"), ("icx", b">"), ("rcx", b">")):
        if r.random() < 0.3:
            b = open(h.path(f), "rb").read()
            h.cut(f, 0, b.rindex(b">"))
    bins = []
    for f, forx in srcs:
        o = "a%s.bin" % f[1]
        if r.random() < 0.3:
            h.put(o, b"something else", False, "not a compiled file")
        if r.random() < 0.2:
            h.run("lt-comp", ["lr", f, o, "acx"], [f, "acx"], o, careful=True, total=False, placed=True)
        else:
            h.run("lt-comp", [r.choice(["lr", "lr", "rl", "u"]), f], [f], o, careful=True, total=False)
        bins.append(o)
        if forx and r.random() < 0.5:
            h.run("lt-expand", [f], [f], "x.txt", text=True)
    for k in range(r.randint(4, 9)):
        a = r.choice(bins + (["missing.bin"] if r.random() < 0.1 else []))
        b = r.choice(bins)
        o = "b%d.bin" % k if r.random() < 0.7 else "o.bin"
        if o in (a, b):
            o = "c%d.bin" % k
        t = r.choice(["cut", "cut", "cut", "later", "invert", "append", "append", "trim", "compose", "restrict", "acx", "print", "paradigm", "proc", "proc", "proc", "full", "nodir"])
        made = o
        if t == "cut":
            made = None
            if a != "missing.bin" and os.path.exists(h.path(a)) and os.path.getsize(h.path(a)) > 0:
                n = os.path.getsize(h.path(a))
                if r.random() < 0.5:
                    h.cut(a, 0, n)
                else:
                    h.cut(a, max(0, n - r.choice([1, 2, 5, 20])), n)
        elif t == "later":
            made = None
            h.later(a)
        elif t == "invert":
            h.run("lt-invert", [a], [a], o)
        elif t == "append":
            h.run("lt-append", [a, b], [a, b], o)
        elif t == "trim":
            h.run("lt-trim", [a, b], [a, b], o, total=False)
        elif t == "compose":
            h.run("lt-compose", [a, b], [a, b], o, total=False)
        elif t == "restrict":
            h.run("lt-restrict", [r.choice(["lr", "rl"]), a], [a], o)
        elif t == "acx":
            h.run("lt-apply-acx", [a, "acx"], [a, "acx"], o)
        elif t == "print":
            made = None
            h.run("lt-print", [a], [a], "p.txt", text=True)
        elif t == "paradigm":
            made = None
            h.run("lt-paradigm", [a, "pat"], [a, "pat"], "p.txt", text=True)
        elif t == "proc":
            made = None
            m = r.choice(["-a", "-a", "-g", "-d", "-b", "-p", "-t", "-e", "-w"])
            ins, x = [a], [m]
            if m == "-a" and r.random() < 0.5:
                x, ins = r.choice([(["-i", "icx"], [a, "icx"]), (["-r", "rcx"], [a, "rcx"])])
            h.run("lt-proc", x + [a], ins, total=False, stdin=b"^ab<n>$ ^a$\n" if m in ("-g", "-d", "-b") else b"ab a ab.\n")
        elif t == "full":
            # the disk is full some way into the file that would be written
            tool, args = r.choice([("lt-invert", [a]), ("lt-append", [a, b]), ("lt-restrict", ["lr", a]), ("lt-comp", ["lr", srcs[0][0]]),
                                   ("lt-print", [a])])
            ins, txt = [x for x in args if x != "lr"], tool == "lt-print"
            bins.append(o)
            made = None
            if h.run(tool, args, ins, o, text=txt, total=tool != "lt-comp"):
                n = os.path.getsize(h.path(o))
                if n > 0:
                    made = "f%d.bin" % k
                    h.run(tool, args, ins, made, room=r.randrange(n), text=txt, careful=False)
            if txt:
                bins.remove(o)
                made = None
        else:
            made = None
            h.run("lt-invert", [a], [a], "nodir/o.bin", room=1 << 20)
        if made:
            bins.append(made)
    return h


def body(ctx):
    ctx.model("MCFiles", "MCFiles5.cfg" if ctx.thorough() else None)
    ctx.traces("TraceFiles", one, ctx.size(1500, 15000))


if __name__ == "__main__":
    sys.exit(core.main("C34", body))
