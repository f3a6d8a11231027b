"""Build lttoolbox from /repo's current working tree into a scratch directory of /verif."""
import hashlib, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("LT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, ".work")

DEFS = ("-DHAVE_DECL_FGETC_UNLOCKED -DHAVE_DECL_FMEMOPEN -DHAVE_DECL_FPUTC_UNLOCKED "
        "-DHAVE_DECL_FPUTS_UNLOCKED -DHAVE_DECL_FREAD_UNLOCKED -DHAVE_DECL_FWRITE_UNLOCKED "
        "-DHAVE_GETOPT_LONG -DPACKAGE_VERSION=\"3.8.4\" -D_GNU_SOURCE -D_POSIX_C_SOURCE=200112 "
        "-DNDEBUG").split()
FLAGS = ["-std=c++23", "-O1", "-fPIC", "-w", "-pthread"]
LIBS = ["-lxml2", "-licui18n", "-licuio", "-licuuc", "-licudata", "-pthread"]


class BuildError(Exception):
    pass


def _incl(repo):
    return ["-I/usr/include/libxml2", "-I/usr/include/utf8cpp", "-I" + repo, "-I" + repo + "/lttoolbox"]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-4000:]))


def source_hash(repo, extra):
    h = hashlib.sha256()
    d = os.path.join(repo, "lttoolbox")
    for f in sorted(os.listdir(d)):
        if f.endswith((".cc", ".h", ".hpp", ".txt")):
            h.update(f.encode())
            with open(os.path.join(d, f), "rb") as fh:
                h.update(fh.read())
    for e in extra:
        h.update(e.encode())
        if os.path.exists(e):
            with open(e, "rb") as fh:
                h.update(fh.read())
    h.update(" ".join(DEFS + FLAGS).encode())
    return h.hexdigest()[:20]


def build(harness=True):
    """returns the directory holding lt-comp, lt-proc, ... and lt-harness"""
    repo = REPO
    src = os.path.join(repo, "lttoolbox")
    hsrc = os.path.join(VERIF, "harness", "harness.cc")
    tag = source_hash(repo, [hsrc])
    out = os.path.join(WORK, "build-" + tag)
    if os.path.exists(os.path.join(out, "OK")):
        return out
    os.makedirs(WORK, exist_ok=True)
    # keep a few caches only
    olds = sorted((os.path.getmtime(os.path.join(WORK, x)), x) for x in os.listdir(WORK) if x.startswith("build-"))
    for _, x in olds[:-3]:
        shutil.rmtree(os.path.join(WORK, x), ignore_errors=True)
    tmp = out + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    ccs = [f for f in sorted(os.listdir(src)) if f.endswith(".cc") and f != "check-cstdint.cc"]
    tools, lib = [], []
    for f in ccs:
        with open(os.path.join(src, f), encoding="utf-8", errors="replace") as fh:
            txt = fh.read()
        (tools if re.search(r"\bmain\s*\(", txt) and f.startswith("lt_") else lib).append(f)
    inc = _incl(repo)

    def cc(f):
        _run(["g++"] + FLAGS + DEFS + ["-DLTTOOLBOX_EXPORTS"] + inc + ["-c", os.path.join(src, f), "-o", os.path.join(tmp, f + ".o")])

    def hc():
        _run(["g++"] + FLAGS + DEFS + inc + ["-c", hsrc, "-o", os.path.join(tmp, "harness.o")])

    has_h = harness and os.path.exists(hsrc)
    with ThreadPoolExecutor(8) as ex:
        # biggest first
        order = sorted(lib + tools, key=lambda f: -os.path.getsize(os.path.join(src, f)))
        hfut = ex.submit(hc) if has_h else None
        for f in [ex.submit(cc, f) for f in order]:
            f.result()
        try:
            if hfut:
                hfut.result()
        except BuildError as e:      # only the checks of the library interface need it
            print("note: the harness does not build\n%s" % e)
            has_h = False
    _run(["g++", "-shared", "-o", os.path.join(tmp, "liblttoolbox.so")] + [os.path.join(tmp, f + ".o") for f in lib] + LIBS)

    def ld(t):
        name = "lt-harness" if t == "harness" else t[:-3].replace("_", "-")
        _run(["g++", "-o", os.path.join(tmp, name), os.path.join(tmp, t + ".o"), "-L" + tmp, "-llttoolbox",
              "-Wl,-rpath,$ORIGIN"] + LIBS)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(ld, tools + (["harness"] if has_h else [])))
    for f in os.listdir(tmp):
        if f.endswith(".o"):
            os.remove(os.path.join(tmp, f))
    open(os.path.join(tmp, "OK"), "w").close()
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(), round(time.time() - t, 1), "s")
