"""Run TLC on shards of recorded scenarios and collect which were accepted."""
import json, os, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


EVALERR = re.compile(r"Attempted to|evaluating the (nested )?expression|TLC threw an unexpected exception|The (first|second) argument of|"
                     r"applied to an argument|ran out of|does not have a field|was not in the domain|StackOverflow")


class ModelError(Exception):
    pass


def run_tlc(workdir, module, cfg=None, timeout=800, extra=(), heap="1500m"):
    cmd = ["java", "-XX:+UseSerialGC", "-Xss256m", "-Xmx" + heap, "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC",
           "-config", cfg or (module + ".cfg"), "-metadir", os.path.join(workdir, "md"), "-noGenerateSpecTE",
           "-nowarning"] + list(extra) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ModelError("TLC timed out on " + module)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def stats(out):
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def prepare(workdir):
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), workdir)


def _shard(args):
    workdir, module, scen, timeout = args
    prepare(workdir)
    with open(os.path.join(workdir, "trace.ndjson"), "w") as f:
        for s in scen:
            f.write(json.dumps(s) + "\n")
    rc, out = run_tlc(workdir, module, extra=["-workers", "1"], timeout=timeout)
    if "Model checking completed. No error has been found." not in out:
        # an observation outside the specification's domain: find out which scenario it is.  The scenario is
        # not a behaviour of the specification, so it counts as rejected (only evaluation errors do).
        if not EVALERR.search(out):
            raise ModelError("TLC failed on %s in %s:\n%s" % (module, workdir, out[-6000:]))
        shutil.rmtree(workdir, ignore_errors=True)
        if len(scen) == 1:
            return set(), 0, 0
        h = len(scen) // 2
        a = _shard((workdir, module, scen[:h], timeout))
        b = _shard((workdir, module, scen[h:], timeout))
        return a[0] | b[0], a[1] + b[1], a[2] + b[2]
    acc = set(re.findall(r'<<"ACCEPT", "([^"]+)">>', out))
    g, d = stats(out)
    shutil.rmtree(workdir, ignore_errors=True)
    return acc, g, d


def validate(workroot, module, scenarios, shards=8, timeout=800):
    """scenarios: list of dicts with unique 'id'. Returns (rejected ids list, generated, distinct)"""
    if not scenarios:
        return [], 0, 0
    shards = max(1, min(shards, len(scenarios)))
    # balance by size
    sized = sorted(scenarios, key=lambda s: -len(json.dumps(s)))
    parts = [[] for _ in range(shards)]
    for i, s in enumerate(sized):
        parts[i % shards].append(s)
    jobs = [(os.path.join(workroot, "%s-%d" % (module, i)), module, p, timeout) for i, p in enumerate(parts)]
    acc, g, d = set(), 0, 0
    with ThreadPoolExecutor(shards) as ex:
        for a, x, y in ex.map(_shard, jobs):
            acc |= a
            g += x
            d += y
    return [s["id"] for s in scenarios if s["id"] not in acc], g, d
