"""C22: lt-paradigm lists exactly the pairs whose analysis matches the pattern."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, dix as D
from chain import Chain
from dix import entry, P, PAR


def one(ctx, i):
    r = ctx.rng(i)
    c = Chain(ctx, "s%d" % i)
    chars = r.choice(["ab", "abé", "aAb", "ab😀", "a-\\", "a *"[:2]])
    T = [c.tags.id(x) for x in ("n", "v", "sg", "pl", "é")]
    ghost = [c.tags.id("ghost"), c.tags.id("none")]           # not in the dictionary
    w = lambda n=3: [ord(r.choice(chars)) for _ in range(r.randint(1, n))]
    lem = [w() + ([32] + w() if r.random() < 0.1 else []) for _ in range(r.randint(1, 4))]

    def anal():
        s = list(r.choice(lem)) + [r.choice(T) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]
        if r.random() < 0.08:
            s += [35, 32] + w(1)
        return s
    d = {"letters": D.S(chars if r.random() < 0.8 else chars[:-1]), "sdefs": T, "pardefs": [], "sections": []}
    if r.random() < 0.5:
        d["pardefs"] = [{"n": "p", "es": [entry([P(w(2), [r.choice(T) for _ in range(r.randint(0, 2))])]) for _ in range(r.randint(1, 4))]}]
    for k in range(r.choice([1, 1, 2, 3])):
        es = []
        for _ in range(r.randint(1, 6)):
            a = anal()
            if d["pardefs"] and r.random() < 0.4 and 35 not in a:
                es.append(entry([P(w(), a), PAR("p")]))
            else:
                es.append(entry([P(w() if r.random() < 0.93 else [], a)]))
        d["sections"].append({"id": "m%d" % k, "type": r.choice(["standard", "inconditional"]), "es": es})
    dr = r.choice(["LR", "RL"])
    c.about = "%s %s" % (dr, D.dix_xml(d, c.tags).replace("\n", ""))
    if not c.compile("m", d, c.opt(dir=dr)):
        return c
    ana = (dr == "LR") != (r.random() < 0.15)           # now and then the wrong side: then nothing or other things match

    def pattern():
        s = anal() if r.random() < 0.7 else [x for e in [r.choice([e for z in d["sections"] for e in z["es"]])] for x in e["els"][0]["r"]]
        out = []
        while s:
            x, s = s[0], s[1:]
            z = r.random()
            if x > 0:
                if z < 0.65:
                    out.append({"t": "lit", "c": x if z < 0.6 else ord(r.choice(chars)), "ts": []})
                else:
                    k = r.randint(0, len(s))
                    while k and any(y < 0 for y in s[:k]):
                        k -= 1
                    s = s[k:]
                    out.append({"t": "star", "c": 0, "ts": []})
            else:
                if z < 0.4:
                    out.append({"t": "lit", "c": x if z < 0.36 else r.choice(T + ghost), "ts": []})
                    continue
                k = r.choice(["anytag", "anytag", "only", "but", "or"])
                ts = r.sample(T + ghost, r.randint(1, 3)) if k != "anytag" else []
                if k in ("only", "or") and r.random() < 0.6:
                    ts = list(dict.fromkeys([x] + ts))
                out.append({"t": k, "c": 0, "ts": ts})
                if k != "or":
                    s = s[r.randint(0, len(s)):] if s and s[0] < 0 and r.random() < 0.5 else s
        if r.random() < 0.15:
            out.insert(r.randint(0, len(out)), {"t": "star", "c": 0, "ts": []})
        return [x for x in out if not (x["t"] == "lit" and x["c"] == 42)] or [{"t": "star", "c": 0, "ts": []}]
    for _ in range(2):
        c.paradigm("m", [pattern() for _ in range(r.choice([1, 3, 6]))], ana, r.sample(T + ghost, r.choice([0, 0, 1, 2])), r.random() < 0.5,
                   r.choice("\n\n\0"), r.random() < 0.7, r.choice([0, 0, 0, 1, 2]))
    c.about += " | " + " ; ".join(str(e.get("texts")) for e in c.events[1:])
    return c


def body(ctx):
    ctx.traces("TraceToolchain", one, ctx.size(4000, 40000))


if __name__ == "__main__":
    sys.exit(core.main("C22", body))
