"""C35: the same request has the same result, however the tool is called; what is no request is refused."""
import getopt, hashlib, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core

HEAD = '<?xml version="1.0" encoding="UTF-8"?>\n'
MONO = HEAD + '''<dictionary><alphabet>abcdefghABCDE</alphabet>
<sdefs><sdef n="n"/><sdef n="v"/><sdef n="compound-only-L"/><sdef n="compound-R"/></sdefs>
<pardefs><pardef n="p"><e><p><l>e</l><r>e<s n="n"/></r></p></e><e r="LR" w="2.5"><p><l>f</l><r><s n="v"/></r></p></e></pardef></pardefs>
<section id="main" type="standard">
<e w="1"><p><l>ab</l><r>ab<s n="n"/></r></p></e><e w="2"><p><l>ab</l><r>aB<s n="v"/></r></p></e><e w="1"><p><l>ab</l><r>c<s n="n"/></r></p></e>
<e w="3.25"><p><l>ab</l><r>d<s n="n"/></r></p></e><e><p><l>Ba</l><r>Ba<s n="n"/></r></p></e>
<e alt="x"><p><l>ax</l><r>ax<s n="n"/></r></p></e><e v="y"><p><l>ay</l><r>ay<s n="n"/></r></p></e><e v="z y"><p><l>az</l><r>az<s n="n"/></r></p></e>
<e vl="y"><p><l>al</l><r>al<s n="n"/></r></p></e><e vr="y"><p><l>ar</l><r>ar<s n="n"/></r></p></e><e r="RL"><p><l>rl</l><r>ab<s n="v"/></r></p></e>
<e><p><l>c</l><r>c<s n="n"/><s n="compound-only-L"/></r></p></e><e><p><l>de</l><r>de<s n="n"/><s n="compound-R"/></r></p></e>
<e><i>g<m/>h</i><par n="p"/></e><e><p><l>gg</l><r>gg<m/>g<s n="n"/></r></p></e>
</section><section id="final" type="inconditional"><e><p><l>.</l><r>.<s n="v"/></r></p></e></section></dictionary>
'''
BI = HEAD + '''<dictionary><alphabet/><sdefs><sdef n="n"/><sdef n="v"/></sdefs><section id="main" type="standard">
<e><p><l>ab<s n="n"/></l><r>xy<s n="n"/></r></p></e><e w="1"><p><l>ab<s n="n"/></l><r>Z<s n="v"/></r></p></e><e><p><l>c<s n="n"/></l><r>w<s n="n"/></r></p></e>
<e><p><l>gh</l><r>kk</r></p></e></section><section id="more" type="standard"><e><p><l>aB<s n="v"/></l><r>ab<s n="n"/></r></p></e></section></dictionary>
'''
POST = HEAD + '''<dictionary><alphabet>ab</alphabet><sdefs/><section id="main" type="standard">
<e><p><l><a/>a<b/>b</l><r>c</r></p></e><e><p><l>aa</l><r>b<b/>b</r></p></e></section></dictionary>
'''
ATT = "0\t1\ta\tb\n0\t1\t.\tε\n1\t2\tε\tc\t1.0\n2\t0.5\n1\t0.0\n"
ACX = HEAD + '<analysis-chars><char value="a"><equiv-char value="e"/></char><char value="b"><equiv-char value="f"/></char></analysis-chars>\n'
ICX = HEAD + '<ignored-chars><char value="%s"/></ignored-chars>\n'
RCX = HEAD + '<restore-chars><char value="a"><restore-char value="b"/></char><char value="x"><restore-char value="a"/></char></restore-chars>\n'
TEXTS = {"t1": "ab Ab AB a\u00adb Ba ba cde ccde ghe ghf é. a.b ax xb\n", "t2": "aab ab~ ~a b aa [x] b [[t:b:y]]a[[/]] b.\n",
         "u1": "[x]^ab<n>$ ^Ab<n>$ ^AB<v>$ ^zz<n>$ ^*q$ ^aB<v>$.[[t:b:y]]^ghe<n>$ ^@k$ ^ax<n>$\n",
         "u2": "^s/ab<n>$ ^S/Ab<n><v>$ ^q/*q$ ^c/c<n>/gh$\n",
         "m1": "^a/a<MERGE_BEG>$ [b]^b/b<n>/c$ ^c\\/d/d<MERGE_END>$ ^e/e<n>$\n", "m2": "^a b/a b<MERGED>$ x ^c/c<n>$\n",
         "p1": "ab<*>\n<*>\n", "p2": "*<n>\nab<|n|v>\n"}
BINS = ["mono.bin", "gen.bin", "u.bin", "bi.bin", "post.bin", "mono2.bin"]
# options of each tool: short -> (long, values or None)
VARS = {"v": ("var", ["y", "z", ""]), "a": ("alt", ["x", "q"]), "l": ("var-left", ["y"]), "r": ("var-right", ["y"])}
TOOLS = {
    "lt-proc": {"a": ("analysis", None), "b": ("bilingual", None), "c": ("case-sensitive", None), "d": ("debugged-gen", None), "e": ("decompose-nouns", None),
                "g": ("generation", None), "i": ("ignored-chars", ["i1", "i2"]), "r": ("restore-chars", ["r1"]), "l": ("tagged-gen", None),
                "m": ("tagged-nm-gen", None), "n": ("non-marked-gen", None), "o": ("surf-bilingual", None), "O": ("surf-bilingual-keep", None),
                "p": ("post-generation", None), "x": ("inter-generation", None), "s": ("sao", None), "t": ("transliteration", None), "v": ("version", None),
                "z": ("null-flush", None), "w": ("dictionary-case", None), "C": ("careful-case", None), "I": ("no-default-ignore", None),
                "W": ("show-weights", None), "N": ("analyses", ["1", "2", "3"]), "L": ("weight-classes", ["1", "2"]),
                "M": ("compound-max-elements", ["1", "2", "3"]), "h": ("help", None)},
    "lt-comp": dict(VARS, d=("debug", None), m=("keep-boundaries", None), H=("hfst", None), S=("no-split", None), j=("jobs", None), V=("verbose", None), h=("help", None)),
    "lt-expand": dict(VARS, m=("keep-boundaries", None)),
    "lt-print": {"a": ("alpha", None), "H": ("hfst", None), "h": ("help", None)},
    "lt-append": {"k": ("keep", None), "s": ("single", None), "h": ("help", None)},
    "lt-invert": {"h": ("help", None)},
    "lt-compose": {"i": ("inverted", None), "a": ("anywhere", None)},
    "lt-trim": {"s": ("match-section", ["main@standard", "more@standard", "final@inconditional"])},
    "lt-restrict": dict(VARS, m=("minimise", None)),
    "lt-merge": {"u": ("unmerge", None), "z": ("null-flush", None), "h": ("help", None)},
    "lt-paradigm": {"a": ("analyser", None), "e": ("exclude", ["n", "v"]), "s": ("sort", None), "z": ("null-flush", None), "h": ("help", None)},
    "lt-apply-acx": {},
}
FILES = {"lt-proc": "bto", "lt-comp": "wsos", "lt-expand": "so", "lt-print": "bo", "lt-append": "bbo", "lt-invert": "bo", "lt-compose": "bbo", "lt-trim": "bbo",
         "lt-restrict": "wbo", "lt-merge": "to", "lt-paradigm": "bto", "lt-apply-acx": "bso"}
REPEAT = set("iNLM") | set("e")      # options of lt-proc and lt-paradigm whose repetition has a meaning; -s of lt-trim as well


class Calls:
    skip = False
    events = [1]

    def __init__(self, sid, tool):
        self.sid, self.tool, self.calls, self.contents, self.about = sid, tool, [], {}, ""

    def scenario(self):
        return {"id": self.sid, "tool": self.tool, "calls": self.calls, "contents": self.contents, "about": self.about}


def sources(ctx):
    d = os.path.join(ctx.scratch, "inputs")
    os.makedirs(d)
    txt = {"mono.dix": MONO, "mono2.dix": MONO.replace('id="main"', 'id="other"').replace(">ab<", ">ba<"), "bi.dix": BI, "post.dix": POST, "t.att": ATT,
           "acx": ACX, "i1": ICX % "h", "i2": ICX % "-", "r1": RCX}
    txt.update(TEXTS)
    for k, v in txt.items():
        with open(os.path.join(d, k), "wb") as f:
            f.write(v.encode())
    for b, how in (("mono.bin", ["lr", "mono.dix"]), ("gen.bin", ["rl", "mono.dix"]), ("u.bin", ["u", "mono.dix"]), ("bi.bin", ["lr", "bi.dix"]),
                   ("post.bin", ["lr", "post.dix"]), ("mono2.bin", ["lr", "mono2.dix"])):
        ctx.run("lt-comp", how + [b], cwd=d)
    return d


def request(r, tool):
    """an ordinary request: (options [(short, value)], inputs by position; None for the output)"""
    o = []
    flag = lambda s, p=0.4: r.random() < p and o.append((s, None))
    val = lambda s, p=0.3: r.random() < p and o.append((s, r.choice(TOOLS[tool][s][1])))
    if tool == "lt-proc":
        k = r.choice(["a", "a", "e", "g", "g", "b", "b", "p", "t"])
        if k in "ae":
            (k == "e" or r.random() < 0.3) and o.append((k, None))
            for s in "cwIW":
                flag(s, 0.25)
            for s in "NLMi":
                val(s, 0.25)
            val("r", 0.1)
            fs = [r.choice(["mono.bin", "mono.bin", "mono2.bin"]), "t1"]
        elif k == "g":
            m = [s for s in "dlmn" if r.random() < 0.2] or ["g"]
            o += [(s, None) for s in m]
            flag("c", 0.2)
            flag("w", 0.2)
            fs = [r.choice(["gen.bin", "gen.bin", "bi.bin"]), "u1"]
        elif k == "b":
            m = r.choice([["b"], ["b", "o"], ["o"], ["O"], ["b", "O"], ["b", "g"], ["g", "o"], ["b", "d"], ["b", "n"]])
            o += [(s, None) for s in m]
            flag("c", 0.2)
            flag("w", 0.2)
            fs = ["bi.bin", r.choice(["u1", "u2", "u2"])]
        else:
            o.append((r.choice("px") if k == "p" else "t", None))
            fs = ["post.bin", "t2"]
        flag("z", 0.2)
        return o, fs + [None]
    if tool == "lt-comp":
        for s in "mHSjV":
            flag(s, 0.25)
        d = r.choice(["lr", "rl", "u"])
        for s in "va" + {"lr": "r", "rl": "l", "u": "lr"}[d]:
            val(s)
        src = r.choice(["mono.dix", "mono.dix", "bi.dix", "t.att"])
        return o, [d, src, None, "acx" if r.random() < 0.2 else ""]
    if tool == "lt-expand":
        flag("m")
        for s in "valr":
            val(s)
        return o, [r.choice(["mono.dix", "bi.dix"]), None]
    if tool == "lt-restrict":
        flag("m")
        for s in "valr":
            val(s)
        return o, [r.choice(["lr", "rl"]), "u.bin", None]
    for s, (_, vs) in TOOLS[tool].items():
        if s not in "h" and not (tool == "lt-append" and s == "s"):
            flag(s) if vs is None else val(s)
    b = lambda: r.choice(BINS)
    return o, {"lt-print": lambda: [b(), None], "lt-invert": lambda: [b(), None], "lt-append": lambda: ["mono.bin", r.choice(["bi.bin", "mono2.bin", "gen.bin"]), None],
               "lt-compose": lambda: ["mono.bin", "bi.bin", None], "lt-trim": lambda: ["mono.bin", "bi.bin", None], "lt-merge": lambda: [r.choice(["m1", "m2"]), None],
               "lt-paradigm": lambda: [r.choice(["mono.bin", "gen.bin"]), r.choice(["p1", "p2"]), None], "lt-apply-acx": lambda: [r.choice(["mono.bin", "gen.bin"]), "acx", None]}[tool]()


def abbreviation(r, tool, name):
    longs = [l for l, _ in TOOLS[tool].values()]
    ok = [n for n in range(1, len(name) + 1) if [l for l in longs if l.startswith(name[:n])] == [name] or n == len(name)]
    return name[:r.choice(ok)]


def spell(r, tool, opts, files):
    """one of the many ways to write a request: (arguments, content of standard input)"""
    opts = opts[:]
    for s, v in opts[:]:
        if v is None and r.random() < 0.1:
            opts.append((s, None))
        elif v is not None and (s in REPEAT or tool == "lt-trim") and r.random() < 0.25:
            if s in "NLM":
                opts.insert(opts.index((s, v)), (s, r.choice(TOOLS[tool][s][1])))      # the last one counts
            else:
                opts.append((s, v))
    if not any(s in "NLM" for s, _ in opts):
        r.shuffle(opts)
    toks = []
    for s, v in opts:
        l = TOOLS[tool][s][0]
        z = r.random()
        n = "--" + (l if r.random() < 0.6 else abbreviation(r, tool, l))
        if v is None:
            if z < 0.3 and toks and len(toks[-1]) == 1 and toks[-1][0][0] == "-" and toks[-1][0][1] != "-" and toks[-1][0] not in ("-",) \
                    and all(TOOLS[tool].get(c, ("", 1))[1] is None for c in toks[-1][0][1:]):
                toks[-1] = [toks[-1][0] + s]
            else:
                toks.append(["-" + s] if z < 0.7 else [n])
        else:
            toks.append(["-" + s, v] if z < 0.3 or (z < 0.6 and not v) else ["-" + s + v] if z < 0.6 else [n, v] if z < 0.8 else [n + "=" + v])
    fs, stdin = [], ""
    kinds = FILES[tool]
    for k, f in zip(kinds, files):
        if f is None:
            fs.append("out")
        else:
            fs.append(f)
    while fs and fs[-1] == "":
        fs.pop()
    if tool != "lt-comp" and r.random() < 0.4:                 # to standard output
        if r.random() < 0.5:
            fs[-1] = "-"
        else:
            fs.pop()
            if r.random() < 0.5 and fs and kinds[len(fs) - 1] == "t":
                stdin = fs.pop()
            elif r.random() < 0.5 and len(fs) > 1 and kinds[len(fs) - 1] == "b":
                stdin = fs.pop()
            elif tool in ("lt-print", "lt-invert") and r.random() < 0.4:
                stdin = fs.pop()
    if not stdin and r.random() < 0.25:
        bins = [n for n in range(len(fs)) if kinds[n] == "b"]
        if bins:
            n = r.choice(bins)
            stdin, fs[n] = fs[n], "-"
    out, rest = [], [[f] for f in fs]
    end = r.random() < 0.15
    if end:
        out = sum(toks, []) + ["--"] + fs
    elif r.random() < 0.5:
        out = sum(toks, []) + fs
    else:
        while toks or rest:                                      # options may stand anywhere
            q = toks if toks and (not rest or r.random() < 0.5) else rest
            out += q.pop(0)
    return out, stdin


def disturb(r, tool, toks):
    t = toks[:]
    z = r.random()
    if z < 0.25 and t:
        t.pop(r.randrange(len(t)))
    elif z < 0.4 and t:
        t.insert(r.randint(0, len(t)), r.choice(t))
    elif z < 0.6:
        t.insert(r.randint(0, len(t)), r.choice(["-q", "--nosuch", "-h", "--help", "--", "x", "-Q9", "--=", "--z"][:7] + ["-" + r.choice("abcdeghimnoprstvzINLMW")]))
    elif z < 0.75 and tool == "lt-proc":
        t.insert(r.randint(0, len(t)), r.choice(["-N0", "--analyses=-1", "-Lx", "-M", "--an", "-v", "--version", "-i", "-ino", "--surf", "-N2x", "-a", "-b", "-g", "-e", "-p"]))
    elif z < 0.9 and t:
        k = r.randrange(len(t))
        if len(t[k]) > 2 and t[k].startswith("-"):
            t[k] = t[k][:-1] if r.random() < 0.6 else t[k] + "=1"
    else:
        t += ["x", "y"][:r.randint(1, 2)]
    return t


def canonical(tool, toks, stdin):
    """the plainest way to write the same call, as far as this function can tell (the specification judges)"""
    sh = "".join(s + (":" if v is not None else "") for s, (_, v) in TOOLS[tool].items())
    lo = [l + ("=" if v is not None else "") for l, v in TOOLS[tool].values()]
    try:
        os_, fs = getopt.gnu_getopt(toks, sh, lo)
    except getopt.GetoptError:
        return None
    back = {"--" + l: s for s, (l, _) in TOOLS[tool].items()}
    plain, vals = set(), []
    for o, v in os_:
        s = back[o] if o in back else o[1]
        if TOOLS[tool][s][1] is None:
            plain.add(s)
        else:
            vals.append((s, v))
    if plain & set("h") and "h" in TOOLS[tool]:
        return None
    for s in "NLM":
        if tool == "lt-proc":
            mine = [x for x in vals if x[0] == s]
            vals = [x for x in vals if x[0] != s] + mine[-1:]
    fs = list(fs)
    kinds = FILES[tool]
    if len(fs) > len(kinds):
        return None
    for n, k in enumerate(kinds):
        if n >= len(fs):
            fs.append("" if k == "s" and n > 2 else "out" if k == "o" else stdin if stdin and k in "bt" else "e0")
        elif fs[n] == "-" and k == "b":
            fs[n] = stdin or "e0"
        elif k == "o":
            fs[n] = "out"
    while fs and fs[-1] == "":
        fs.pop()
    return ["-" + s for s in sorted(plain)] + sum((["-" + s, v] for s, v in sorted(vals)), []) + ["--"] + fs, fs


def call(ctx, c, src, toks, stdin):
    d = ctx.tmp("d")
    shutil.copytree(src, d)
    open(os.path.join(d, "e0"), "w").close()
    before = set(os.listdir(d))
    data = b""
    if stdin:
        with open(os.path.join(d, stdin), "rb") as f:
            data = f.read()
    rc, so, se = ctx.run(c.tool, toks, stdin=data, cwd=d)
    new = sorted(set(os.listdir(d)) - before)
    h = lambda b: "" if b == b"" else hashlib.sha256(b).hexdigest()[:16]
    fil = "none"
    if len(new) == 1:
        with open(os.path.join(d, new[0]), "rb") as f:
            fil = h(f.read())
    elif new:
        fil = "many"
    for x in before:                                              # the inputs are left alone
        with open(os.path.join(d, x), "rb") as f, open(os.path.join(src, x) if x != "e0" else os.devnull, "rb") as g:
            if f.read() != g.read():
                fil = "an input changed"
    shutil.rmtree(d, ignore_errors=True)
    c.calls.append({"toks": toks, "stdin": stdin or "e0", "status": "ok" if rc == 0 else "refused" if rc in (1, -6, 134) else "crash %s" % rc, "out": h(so), "file": fil})


def replay(ctx, src):
    """every short command line of the model, on the real tool: what it does is what the plain form of the same request does"""
    with open(os.path.join(src, "mono.bin"), "rb") as f, open(os.path.join(src, "p1"), "rb") as g:
        given = {"F": f.read(), "P": g.read()}
    memo = {}

    def run(ctx, toks):
        d = ctx.tmp("d")
        os.makedirs(d)
        for x, b in given.items():
            with open(os.path.join(d, x), "wb") as f:
                f.write(b)
        rc, so, se = ctx.run("lt-paradigm", toks, stdin=given["P"], cwd=d)
        files = {}
        for x in os.listdir(d):
            with open(os.path.join(d, x), "rb") as f:
                files[x] = hashlib.sha256(f.read()).hexdigest()[:16]
        shutil.rmtree(d, ignore_errors=True)
        same = all(files.get(x) == hashlib.sha256(b).hexdigest()[:16] for x, b in given.items())
        status = "ok" if rc == 0 else "refused" if rc in (1, -6, 134) else "crash %s" % rc
        return [status, so.decode("utf-8", "replace") if status == "ok" else bool(so) and "something written", files if status == "ok" else same and len(files) == 2]
    gen = ctx.behaviours("MCCli")
    plain = sorted({tuple(p) for _, st, p in gen if st == "request"})
    for p, res in zip(plain, ctx.pmap(lambda p: run(ctx, list(p)), plain)):
        memo[p] = res
    seen = ctx.pmap(lambda g: run(ctx, g[0]), gen)
    ctx.expect("MCCli", [("b%d" % n, memo[tuple(p)] if st == "request" else ["refused", False, True], o, "lt-paradigm %s (%s)" % (" ".join(t), st))
                         for n, ((t, st, p), o) in enumerate(zip(gen, seen))])
    if ctx.thorough():
        ctx.model("MCCli", "MCCli4.cfg")


def body(ctx):
    src = sources(ctx)
    replay(ctx, src)
    names = set(os.listdir(src)) | {"e0"}

    def one(ctx, i):
        r = ctx.rng(i)
        tool = r.choice(["lt-proc"] * 6 + ["lt-comp"] * 2 + ["lt-expand", "lt-print", "lt-append", "lt-invert", "lt-compose", "lt-trim", "lt-restrict", "lt-merge",
                                         "lt-paradigm", "lt-apply-acx"])
        c = Calls("s%d" % i, tool)
        c.contents = {x: x for x in names}
        o, f = request(r, tool)
        ways = []
        for _ in range(5):
            w = spell(r, tool, o, f)
            ways.append(w)
            if r.random() < 0.5:
                ways.append((disturb(r, tool, w[0]), w[1]))
        for toks, stdin in ways:
            k = canonical(tool, toks, stdin)
            if k is not None:
                out = FILES[tool].index("o")
                # an output that is one of the inputs is not looked at
                fs = getopt.gnu_getopt(toks, "".join(s + (":" if v is not None else "") for s, (_, v) in TOOLS[tool].items()),
                                       [l + ("=" if v is not None else "") for l, v in TOOLS[tool].values()])[1]
                if len(fs) > out and (fs[out] in names or fs[out] == ""):
                    continue
                if k[0] != toks:
                    call(ctx, c, src, k[0], "")
            call(ctx, c, src, toks, stdin)
        c.about = tool + ": " + " | ".join(" ".join(x["toks"]) + " < " + x["stdin"] for x in c.calls)
        return c
    ctx.traces("TraceCli", one, ctx.size(700, 7000))


if __name__ == "__main__":
    sys.exit(core.main("C35", body))
