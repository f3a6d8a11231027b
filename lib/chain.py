"""Recorder for the tool chain: runs the real tools and logs one event per command, with the
projection of the file it wrote (letters and, per section, the relation)."""
import math, os
import ltbin
import dix as D

UNB = 300


def wint(w):
    if math.isinf(w):
        return 2000000000 if w > 0 else -2000000000
    return int(round(w * 1000000))


class Chain:
    def __init__(self, ctx, sid, tags=None, about=""):
        self.ctx, self.sid = ctx, sid
        self.tags = tags or D.Tags()
        self.files = {}
        self.events = []
        self.about = about
        self.max = UNB
        self.cap = 300
        self.skip = False
        self.sep = []           # the tags of a separable dictionary
        self.split = False      # long sections are written in parts, marked by a leading +

    def scenario(self, **kw):
        s = {"id": self.sid, "tags": self.tags.names, "tagcps": self.tags.cps(), "events": self.events, "about": self.about}
        s.update(kw)
        return s

    def symid(self, s):
        return self.tags.id(s) if isinstance(s, str) else s

    def relation(self, fst, maxlen=None):
        m = self.max if maxlen is None else maxlen
        m = None if m >= UNB else m
        return self.reljson(ltbin.paths(fst, m, m))

    def reljson(self, ps):
        return [[[self.symid(x) for x in i], [self.symid(x) for x in o], wint(w)] for (i, o), w in sorted(ps.items(), key=str)]

    def project(self, path):
        with open(path, "rb") as f:
            data = f.read()
        letters, tags, secs = ltbin.parse(data)
        rels = {n: self.relation(f) for n, f in secs.items()}
        if self.split:
            rels = self.unsplit(rels)
        if sum(map(len, rels.values())) > self.cap:
            raise ltbin.TooBig()
        return {"letters": sorted(set(letters)),
                "secs": [{"name": n, "rel": rels[n]} for n in sorted(rels)]}

    def unsplit(self, rels):
        """the parts of each section taken together, least weights kept"""
        res = {}
        for n, rel in rels.items():
            m = res.setdefault(n.lstrip("+"), {})
            for i, o, w in rel:
                k = str((i, o))
                if k not in m or w < m[k][2]:
                    m[k] = [i, o, w]
        return {n: sorted(m.values(), key=str) for n, m in res.items()}

    def out(self, name):
        p = self.ctx.tmp(name)
        self.files[name] = p
        return p

    def log(self, ev, rc, path, project=None):
        """record the outcome of a command that should have written `path`"""
        if rc == 0 and os.path.exists(path):
            ev["status"] = "ok"
            try:
                ev["obs"] = (project or self.project)(path)
            except ltbin.TooBig:
                self.skip = True
                ev["obs"] = {}
            except (ltbin.FormatError, IndexError, ValueError, OverflowError) as e:
                ev["status"] = "badfile"
                ev["obs"] = {"error": str(e)}
        else:
            ev["status"] = "fail" if rc not in ("timeout",) and rc is not None and rc > 0 else "crash"
            ev["obs"] = {}
        self.events.append(ev)
        return ev["status"] == "ok"

    def write_dix(self, d, dtype=None):
        p = self.ctx.tmp("d.dix")
        with open(p, "w", encoding="utf-8") as f:
            f.write(D.dix_xml(d, self.tags, dtype))
        return p

    def opt(self, dir="LR", alt="", v="", vl="", vr="", keepm=False, acx=()):
        return {"dir": dir, "alt": alt, "v": v, "vl": vl, "vr": vr, "keepm": keepm, "max": self.max,
                "acx": list(acx), "ftags": [], "sep": list(self.sep)}

    def separable(self):
        """dictionaries compiled from here on are separable"""
        self.sep = [self.tags.id(x) for x in ("<ANY_TAG>", "<ANY_CHAR>", "<$>", "<$_>", "<$->", "</>")]

    def ftags(self):
        out = []
        for k, vs in (("r", ("LR", "RL")), ("alt", "xyz"), ("v", "xyz"), ("vl", "xyz"), ("vr", "xyz")):
            for v in vs:
                out.append({"id": self.tags.id("<%s:%s>" % (k, v)), "kind": k, "val": v})
        return out

    def write_acx(self, acx):
        p = self.ctx.tmp("acx.xml")
        with open(p, "w", encoding="utf-8") as f:
            f.write('<?xml version="1.0"?>\n<analysis-chars>\n')
            for x in acx:
                f.write('<char value="%s">' % chr(x["c"]) + "".join('<equiv-char value="%s"/>' % chr(e) for e in x["eq"]) + "</char>\n")
            f.write("</analysis-chars>\n")
        return p

    def tool(self, tool, args, ev, env=None, stdin=b""):
        o = self.out(ev["dst"])
        rc, so, se = self.ctx.run(tool, list(args) + [o], env=env, stdin=stdin)
        return self.log(ev, rc, o)

    def invert(self, dst, a):
        return self.tool("lt-invert", [self.files[a]], {"op": "invert", "dst": dst, "a": a})

    def append(self, dst, a, b, keep=False):
        return self.tool("lt-append", (["-k"] if keep else []) + [self.files[a], self.files[b]],
                         {"op": "append", "dst": dst, "a": a, "b": b, "keep": keep})

    def apply_acx(self, dst, a, acx):
        return self.tool("lt-apply-acx", [self.files[a], self.write_acx(acx)],
                         {"op": "acx", "dst": dst, "a": a, "acx": acx})

    @staticmethod
    def old_format(path):
        """rewrite a compiled file without headers, as versions before 3.5 wrote them; not possible with weights"""
        with open(path, "rb") as f:
            b = f.read()
        h = b"LTTD" + bytes(8)
        if b[:12] != b"LTTB" + bytes(8) or b.count(b"LTTD") != b.count(h):
            return False
        with open(path, "wb") as f:
            f.write(b[12:].replace(h, b""))
        return True

    def restrict(self, dst, a, opt, minimise=False):
        o = dict(opt)
        o["ftags"] = self.ftags()
        args = (["-m"] if minimise else []) + self.opt_args(dict(opt, keepm=False)) + [opt["dir"].lower(), self.files[a]]
        return self.tool("lt-restrict", args, {"op": "restrict", "dst": dst, "a": a, "opt": o})

    def compose(self, dst, a, b, inv=False, anywhere=False, env=None):
        ev = {"op": "composeany" if anywhere else "compose", "dst": dst, "a": a, "b": b, "inv": inv}
        if anywhere:
            _, _, secs = ltbin.parse(open(self.files[a], "rb").read())
            ev["fpaths"] = [{"name": n, "paths": [{"p": [[self.symid(x), self.symid(y)] for x, y in p], "w": wint(w)}
                                                  for p, w in ltbin.aligned(f)]} for n, f in sorted(secs.items())]
        return self.tool("lt-compose", (["-i"] if inv else []) + (["-a"] if anywhere else []) + [self.files[a], self.files[b]], ev, env=env)

    def trim(self, dst, a, b, match=(), sep=()):
        args = []
        for m in match:
            args += ["-s", m]
        return self.tool("lt-trim", args + [self.files[a], self.files[b]],
                         {"op": "trim", "dst": dst, "a": a, "b": b, "match": list(match), "sep": list(sep),
                          "cmp": [self.tags.id("<:co:only-L>"), self.tags.id("<:co:R>"),
                                  self.tags.id("<compound-only-L>"), self.tags.id("<compound-R>")]})

    def expand(self, d, opt):
        src = self.write_dix(d)
        o = self.out("x.txt")
        rc, so, se = self.ctx.run("lt-expand", self.opt_args(opt) + [src, o])

        def lines(p):
            with open(p, "rb") as f:
                t = f.read().decode("utf-8")          # ValueError when broken
            ls = t.split("\n")
            if ls.pop() != "":
                raise ValueError("no newline at the end")
            return {"lines": [[ord(x) for x in y] for y in ls]}
        return self.log({"op": "expand", "dix": d, "opt": opt, "dst": ""}, rc, o, lines)

    def att(self, dst, lines, opt, render):
        """lt-comp on AT&T text; lines as in Att.tla, render: line -> text"""
        src = self.ctx.tmp("f.att")
        with open(src, "w", encoding="utf-8") as f:
            f.write("".join(render(x) for x in lines))
        for x in lines:
            for side in ("l", "r"):
                t = x.get(side, [])
                if len(t) >= 2 and t[0] == 60 and t[-1] == 62:
                    self.tags.id("".join(map(chr, t)))
        args = (["-H"] if opt["hfst"] else []) + ([] if opt["split"] else ["-S"]) + [opt["dir"].lower(), src]
        return self.tool("lt-comp", args, {"op": "att", "dst": dst, "lines": lines, "opt": opt})

    def print(self, a, hfst=False):
        o = self.ctx.tmp("p.att")
        rc, so, se = self.ctx.run("lt-print", (["-H"] if hfst else []) + [self.files[a], o])
        ev = {"op": "print", "dst": "", "a": a, "hfst": hfst, "max": self.max}
        self.log(ev, rc, o, lambda p: {"att": self.att_lines(open(p, "rb").read().decode("utf-8"))})
        self.printed = o
        return ev["status"] == "ok" and ev["obs"].get("att")

    def att_lines(self, text):
        res = []
        for line in text.split("\n"):
            f = line.split("\t")
            if line == "":
                continue
            if line == "--":
                res.append({"k": "sep"})
            elif len(f) == 5:
                res.append({"k": "arc", "s": int(f[0]), "d": int(f[1]), "l": [ord(c) for c in f[2]], "r": [ord(c) for c in f[3]],
                            "w": wint(float(f[4]))})
            elif len(f) == 2:
                res.append({"k": "fin", "s": int(f[0]), "w": wint(float(f[1]))})
            else:
                raise ValueError("bad line " + line)
        for x in res:
            for side in ("l", "r"):
                t = x.get(side, [])
                if len(t) >= 2 and t[0] == 60 and t[-1] == 62:
                    self.tags.id("".join(map(chr, t)))
        if len(res) > 250:
            raise ltbin.TooBig()
        return res

    def alpha(self, a):
        o = self.ctx.tmp("p.alpha")
        rc, so, se = self.ctx.run("lt-print", ["-a", self.files[a], o])
        _, tags, _ = ltbin.parse(open(self.files[a], "rb").read())

        def lines(p):
            ls = open(p, "rb").read().decode("utf-8").split("\n")
            if ls.pop() != "":
                raise ValueError("no newline at the end")
            return {"lines": [[ord(x) for x in y] for y in ls]}
        return self.log({"op": "alpha", "dst": "", "a": a, "tagset": [self.tags.id(t) for t in tags]}, rc, o, lines)

    def paradigm(self, a, pats, analyser, excl=(), sort=False, sep="\n", ends=True, files=0):
        """pats: patterns as in Paradigm.tla; one run of lt-paradigm on all of them"""
        def name(t):
            return self.tags.names[-t - 1][1:-1]

        def show(e):
            k = e["t"]
            if k == "lit":
                x = e["c"]
                return "<" + name(x) + ">" if x < 0 else ("\\" if chr(x) in "<\\*" else "") + chr(x)
            if k == "star":
                return "*"
            ts = [name(t) for t in e["ts"]]
            return {"anytag": "<*>", "only": "<*|" + "|".join(ts) + ">", "but": "<*-" + "-".join(ts) + ">", "or": "<|" + "|".join(ts) + ">"}[k]
        texts = ["".join(map(show, p)) for p in pats]
        args = (["-a"] if analyser else []) + (["-s"] if sort else [])
        for t in excl:
            args += ["-e", "<" + name(t) + ">"]
        data = (sep.join(texts) + (sep if ends else "")).encode()
        o = self.out("par.txt")
        if files:
            fi = self.ctx.tmp("pats.txt")
            open(fi, "wb").write(data)
            rc, so, se = self.ctx.run("lt-paradigm", args + [self.files[a], fi] + ([o] if files > 1 else []))
            if files > 1:
                so = open(o, "rb").read() if os.path.exists(o) else b"?"
        else:
            rc, so, se = self.ctx.run("lt-paradigm", args + [self.files[a]], stdin=data)
        open(o, "wb").write(so)

        def lines(p):
            t = so.decode("utf-8")
            # each group: lines, each with a newline, then the separator (which the last group has only if the input had it)
            groups, cur, line = [], [], ""
            for ch in t:
                if ch == sep and line == "":
                    groups.append(cur)
                    cur = []
                elif ch == "\n":
                    cur.append([ord(c) for c in line])
                    line = ""
                else:
                    line += ch
            if line:
                raise ValueError("unfinished line")
            if not ends:
                groups.append(cur)
            elif cur:
                raise ValueError("output after the last separator")
            if len(groups) != len(pats):
                raise ValueError("%d groups for %d patterns" % (len(groups), len(pats)))
            return {"lines": groups}
        return self.log({"op": "paradigm", "dst": "", "a": a, "pats": pats, "analyser": analyser, "excl": list(excl), "sort": sort, "texts": texts},
                        rc, o, lines)

    def opt_args(self, opt):
        a = []
        if opt["alt"]:
            a += ["-a", opt["alt"]]
        if opt["v"]:
            a += ["-v", opt["v"]]
        if opt["vl"]:
            a += ["-l", opt["vl"]]
        if opt["vr"]:
            a += ["-r", opt["vr"]]
        if opt["keepm"]:
            a += ["-m"]
        return a

    def compile(self, dst, d, opt=None, extra=(), env=None, op="compile", path=None):
        opt = opt or self.opt()
        src = path or self.write_dix(d, opt["sep"] and ("sequential" if len(d["letters"]) % 2 else "separable"))
        o = self.out(dst)
        if opt["dir"] == "U":
            opt = dict(opt, ftags=self.ftags())
        tail = [self.write_acx(opt["acx"])] if opt["acx"] else []
        rc, so, se = self.ctx.run("lt-comp", list(extra) + self.opt_args(opt) + [opt["dir"].lower(), src, o] + tail, env=env)
        ev = {"op": op, "dst": dst, "dix": d, "opt": opt}
        return self.log(ev, rc, o)


def gen_dix(c, r, attrs=None, regex=None, ids=None, **kw):
    """a random dictionary for chain c"""
    feats = dict(weights=r.random() < 0.4, regex=(r.random() < 0.3) if regex is None else regex,
                 attrs=(r.random() < 0.4) if attrs is None else attrs,
                 types=r.choice([("standard",), ("standard", "inconditional", "postblank", "preblank")]))
    feats.update(kw)
    if r.random() < 0.1:                       # many tags, on both sides
        feats.update({"tagnames": tuple("t%d" % k for k in range(9)), **kw, "lefttags": 0.7})
    else:
        feats["lefttags"] = r.choice([0, 0.3])
    g = D.Gen(r, chars=r.choice(["ab", "abc", "aAbB", "abé", "ab😀", "a0-", "abcdefgh"]), **feats)
    d = g.dix(c.tags)
    d["spell"] = r.choice([0, 0, r.randint(1, 10**9)])
    if ids:
        for s, n in zip(d["sections"], ids):
            s["id"] = n
    if D.dix_has_re(d):
        c.max = 5
    return d
