"""Skeleton shared by every check: build, record, validate with TLC, confirm, report, evidence."""
import errno, itertools, json, os, random, shutil, subprocess, sys, time, traceback, tempfile
from concurrent.futures import ThreadPoolExecutor
import build as B
import tlc as T
import ltbin

VERIF = B.VERIF
ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "HOME": "/nonexistent"}

ENVERR = (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN)     # the sandbox's fault, not the tools'


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.bin = B.build()
        self.scratch = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=B.WORK)
        self.counter = itertools.count(1)
        self.cmds = 0
        self.hangs = 0
        self.models = []     # (module, cfg, generated, distinct)
        self.accepted = 0
        self.gen = self.dist = 0
        self.samples = []
        self.notes = []
        self.rejected = []

    def rng(self, *k):
        return random.Random("%s|%s|%s" % (self.prop, self.seed, "|".join(map(str, k))))

    def thorough(self):
        return self.tier == "thorough"

    def size(self, q, t):
        return t if self.thorough() else q

    def tmp(self, name):
        n = next(self.counter)
        d = os.path.join(self.scratch, "%d" % (n % 64))
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, "%d-%s" % (n, name))

    def run(self, tool, args, stdin=b"", env=None, timeout=20, cwd=None):
        """returns (rc, stdout bytes, stderr bytes); rc is 'timeout' when it hangs"""
        e = dict(ENV)
        if env:
            e.update(env)
        self.cmds += 1
        if self.hangs > 8:          # a tree that hangs is already condemned: stop paying for it
            timeout = min(timeout, 3 if self.hangs < 60 else 1)
        if isinstance(stdin, str):
            stdin = stdin.encode("utf-8", "surrogatepass")
        for more in (1, 6):
            try:
                p = subprocess.run([os.path.join(self.bin, tool)] + list(args), input=stdin, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, env=e, timeout=timeout * more, cwd=cwd or self.scratch)
                return p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired:
                self.hangs += 1
                if self.hangs > 4:      # the first ones get a second chance: the machine may be slow
                    break
        return "timeout", b"", b""

    def pmap(self, f, items):
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(f, items))

    # ---- model checking of the design -------------------------------------------------
    def model(self, module, cfg=None, timeout=600, workers="8"):
        wd = os.path.join(self.scratch, "mc-" + module + (cfg or ""))
        T.prepare(wd)
        rc, out = T.run_tlc(wd, module, cfg=cfg, extra=["-workers", workers], timeout=timeout, heap="6g")
        if "Model checking completed. No error has been found." not in out:
            raise T.ModelError("design model %s: %s" % (module, out[-4000:]))
        g, d = T.stats(out)
        self.models.append({"module": module, "cfg": cfg or module + ".cfg", "generated": g, "distinct": d})
        shutil.rmtree(wd, ignore_errors=True)
        return out

    def behaviours(self, module, cfg=None, **kw):
        """model-check a design model and return the behaviours it printed ("GEN <<...>>" lines)"""
        out = self.model(module, cfg, **kw)
        res = []
        for l in out.splitlines():
            if l.startswith('"GEN '):
                res.append(json.loads(l[5:-1].replace('\\"', '"').replace("<<", "[").replace(">>", "]").replace("TRUE", "true").replace("FALSE", "false")))
        res.sort(key=str)
        return res

    def expect(self, module, items):
        """items: (id, expected, observed, description); behaviours of the specification replayed on the tools"""
        bad = 0
        for i, e, o, what in items:
            if e == o:
                self.accepted += 1
            else:
                bad += 1
                if bad <= 3:
                    self.rejected.append((module, {"id": i, "about": what, "expected": e, "observed": o}))

    # ---- trace validation ---------------------------------------------------------------
    def validate(self, module, scenarios, rerun=None, shards=8, timeout=800):
        """scenarios recorded from the implementation.  rerun(id) records one again (confirmation)."""
        rej, g, d = T.validate(self.scratch, module, scenarios, shards, timeout)
        self.gen += g
        self.dist += d
        self.accepted += len(scenarios) - len(rej)
        byid = {s["id"]: s for s in scenarios}
        if len(rej) > 6:
            self.notes.append("%d further rejections not recorded again" % (len(rej) - 6))
        for i in rej[:6]:
            s = byid[i]
            if rerun is not None:
                s2 = rerun(i)
                if s2 is None:
                    continue
                r2, _, _ = T.validate(self.scratch, module, [s2], 1, timeout)
                if not r2:
                    self.notes.append("scenario %s rejected once, accepted when recorded again: not reported" % i)
                    continue
                s = s2
            else:
                r2, _, _ = T.validate(self.scratch, module, [s], 1, timeout)
                if not r2:
                    raise T.ModelError("validation of %s is not reproducible" % i)
            self.rejected.append((module, s))
        return rej

    def traces(self, module, one, n):
        """record n scenarios with one(ctx, i) and validate them"""
        lost = []

        def record(i):
            for again in (False, True):
                try:
                    return one(self, i)
                except Exception as e:
                    if isinstance(e, (MemoryError, T.ModelError)) or getattr(e, "errno", 0) in ENVERR:
                        raise
                    if again:       # twice the tools did not produce what can be recorded at all
                        lost.append((module, {"id": "x%s" % i, "about": "nothing to record: " + traceback.format_exc()[-300:]}))
            return None
        cs = self.pmap(record, range(n))
        self.rejected += lost[:3]
        sc = [c.scenario() for c in cs if c is not None and not c.skip and c.events]
        if not sc and lost:
            return
        self.sample(sc[0])
        self.validate(module, sc, rerun=lambda i: one(self, int(i[1:])).scenario())

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [x for x in d.get("findings", []) if x["property"] == prop]


def main(prop, body, assumptions=(), level="model_checking"):
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
        tier = sys.argv[1]
    t0 = time.time()
    ctx = None
    try:
        for f in os.listdir(os.path.join(VERIF, "replays")) if os.path.isdir(os.path.join(VERIF, "replays")) else []:
            if f.startswith(prop + "-"):
                os.remove(os.path.join(VERIF, "replays", f))
        ctx = Ctx(prop, tier)
        body(ctx)
    except B.BuildError as e:
        print("ERROR: build failed\n" + str(e))
        return 2
    except Exception:
        traceback.print_exc()
        if ctx:
            shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 2
    # a scenario that carries a key listed in the known-findings file is a finding, not a violation
    kf = known_findings(prop)
    viol = []
    hit = set()
    for module, s in ctx.rejected:
        m = [x for x in kf if x["key"] == s.get("key", "")]
        if m:
            hit.add(m[0]["key"])
        else:
            viol.append((module, s))
    for x in kf:
        if x["key"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, x["what"]))
    ev = {
        "property": prop, "tier": tier, "seed": ctx.seed, "level": level,
        "coverage": {
            "states": ctx.dist + sum(m["distinct"] for m in ctx.models),
            "transitions": ctx.gen + sum(m["generated"] for m in ctx.models),
            "traces_validated_against_impl": ctx.accepted + len(ctx.rejected),
            "tool_runs": ctx.cmds,
            "design_models": ctx.models,
            "samples": ctx.samples or ["(none)"],
            "notes": ctx.notes,
        },
        "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 1), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    rc = 0
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, (module, s) in enumerate(viol[:10]):
            p = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, i))
            with open(p, "w") as f:
                json.dump({"property": prop, "module": module, "seed": ctx.seed, "tier": tier, "scenario": s}, f, indent=1, ensure_ascii=False)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            if s.get("about"):
                print("   " + s["about"][:400])
        rc = 1
    shutil.rmtree(ctx.scratch, ignore_errors=True)
    print("%s %s: %d traces validated, %d tool runs, %d violations, %.1f s" % (prop, tier, ctx.accepted + len(ctx.rejected), ctx.cmds, len(viol), time.time() - t0))
    return rc
