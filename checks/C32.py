"""C32: the string functions of the library mean what they say for all strings."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core

LETTERS = [ord(x) for x in "abzABZ"] + [233, 201, 223, 912, 452, 453, 454, 304, 66560, 66600, 64259, 1041, 1073]
SPACES = [32, 32, 9, 10, 13, 8195, 12288]
OTHER = [ord(x) for x in ".,;:/\\|-[]<>'1290"] + [128512, 0x4E00]
OPS = ["trim", "split", "splitesc", "join", "subst", "lower", "upper", "title", "getcase", "copycase", "caseequal",
       "starts", "ends", "merge", "itoa", "stoi"]


class Session:
    skip = False
    events = [1]

    def __init__(self, sid):
        self.sid, self.ops, self.status, self.about = sid, [], "ok", ""

    def scenario(self):
        return {"id": self.sid, "ops": self.ops, "status": self.status, "about": self.about}


def one(ctx, i):
    r = ctx.rng(i)
    c = Session("s%d" % i)
    few = r.sample(LETTERS, 2) + r.sample(OTHER, 1) + [32]

    def text(n=6, pool=None, lo=0):
        if r.random() < 0.08:
            n *= r.choice([3, 6, 12])
        p = pool or (few if r.random() < 0.6 else LETTERS + SPACES + OTHER)
        return [r.choice(p) for _ in range(r.randint(lo, n))]

    def words(lo=0):
        return text(5, r.choice([LETTERS, few[:2], [65, 66, 97], LETTERS + [32]]), lo)

    def near(s):
        """a string that differs from s in case only, or nearly so"""
        t = [ord(y) for x in s for y in r.choice([chr(x), chr(x).upper(), chr(x).lower()])]
        if t and r.random() < 0.3:
            t[r.randrange(len(t))] = r.choice(few)
        return [x for x in t if x in LETTERS or x in (32, 70, 73, 102, 105, 83, 115) or x < 128]

    def wb():
        return [] if r.random() < 0.15 else [91, 91] + text(3, [97, 98, 59, 32, 58]) + [93, 93]
    lines = []
    for _ in range(40):
        op = r.choice(OPS)
        o = {"op": op, "a": [], "b": [], "c": [], "v": [], "n": 0, "out": []}
        if op == "trim":
            o["a"] = text(2, SPACES) + text(4) + text(2, SPACES)
            o["b"] = text(2)
        elif op in ("split", "subst"):
            o["a"], o["b"], o["c"] = text(9), text(2, few, 1), text(3)
        elif op == "splitesc":
            o["b"] = [r.choice([47, 58, 32, 97])]
            o["a"] = text(9, [97, 98, 47, 58, 32, 92] + few)
        elif op == "join":
            o["v"], o["b"] = [text(3, lo=1) for _ in range(r.randint(0, 12 if r.random() < 0.1 else 4))], text(2)
        elif op in ("lower", "upper", "title"):
            o["a"] = words()
        elif op in ("getcase", "copycase"):
            o["a"], o["b"] = words(), words()
        elif op == "caseequal":
            o["a"] = [x for x in words() if x != 304]
            o["b"] = near(o["a"]) if r.random() < 0.8 else words()
        elif op in ("starts", "ends"):
            o["a"] = text()
            k = r.randint(0, len(o["a"]))
            o["b"] = (o["a"][:k] if op == "starts" else o["a"][k:]) if r.random() < 0.7 else text(2)
        elif op == "merge":
            o["a"], o["b"] = wb(), wb()
            if r.random() < 0.15:
                o["b"] = list(o["a"])
        else:
            o["n"] = r.choice([0, 1, -1, 9, 10, -10, 2147483647, -2147483647, r.randint(-99999, 99999)])
            o["a"] = [ord(x) for x in str(o["n"])]
        S = lambda s: " ".join(map(str, s))
        c.ops.append(o)
        lines.append("\t".join([op, "|".join(map(S, o["v"])) if op == "join" else S(o["a"]), S(o["b"]), S(o["c"]), str(o["n"])]))
    rc, so, se = ctx.run("lt-harness", ["strings"], stdin="\n".join(lines) + "\n")
    out = so.decode().split("\n")[:-1]
    if rc != 0 or len(out) != len(lines):
        c.status = "fail"
        c.about = "stopped at " + (lines[len(out)] if len(out) < len(lines) else "?")
    for o, x in zip(c.ops, out):
        o["out"] = [[int(y) for y in p.split()] for p in x.split("|")[1:]]
    c.about += " | ".join(lines)
    return c


def body(ctx):
    ctx.model("MCStrings")
    ctx.traces("TraceStrings", one, ctx.size(1500, 20000))


if __name__ == "__main__":
    sys.exit(core.main("C32", body))
