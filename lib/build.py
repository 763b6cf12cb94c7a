"""Content-addressed builder: compiles /repo's working tree + /verif/mon into instrumented monitors.

Objects are cached under /verif/build/<flavour>/ keyed by the hash of flags, the source text and every
header of the tree, so a stale object can never be used whatever the mtimes are.
"""
import hashlib, os, re, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DIRS = ["Interfaces", "Interfaces/Ipopt", "Algorithms", "Algorithms/Branching", "Algorithms/OaGenerators",
        "Algorithms/QuadCuts", "CbcBonmin", "CbcBonmin/Heuristics"]
COMMON = ["-std=gnu++17", "-DHAVE_CONFIG_H", "-DHAVE_CSTDDEF", "-D_GLIBCXX_ASSERTIONS", "-pthread", "-w", "-g1",
          "-fno-omit-frame-pointer"]
FLAVOURS = {
    # address + undefined, every report fatal; stack variables get a poison pattern
    "asan": ["g++", "-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,float-divide-by-zero",
             "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"],
    # no instrumentation: for valgrind memcheck
    "plain": ["g++", "-O1"],
}
LIBS = ["-lCbcSolver", "-lCbc", "-lCgl", "-lOsiClp", "-lClpSolver", "-lClp", "-lOsi", "-lCoinUtils", "-lipopt",
        "-lpthread", "-lrt", "-lm", "-ldl"]


class BuildError(Exception):
    pass


def repo_sources():
    out = []
    for d in DIRS:
        am = os.path.join(REPO, "src", d, "Makefile.am")
        text = open(am).read()
        text = re.sub(r"#.*", "", text)
        text = text.replace("\\\n", " ")
        for m in re.finditer(r"_SOURCES\s*\+?=(.*)", text):
            for w in m.group(1).split():
                if w.endswith((".cpp", ".c", ".cc")):
                    p = os.path.normpath(os.path.join(REPO, "src", d, w))
                    if p not in out and os.path.exists(p):
                        out.append(p)
    return [p for p in out if not os.path.basename(p) in EXCLUDE]


EXCLUDE = {"BonCurvatureEstimator.cpp", "BonCurvBranchingSolver.cpp"}


def header_digest(mon):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(VERIF, "cfg")]
    if mon:
        roots.append(os.path.join(VERIF, "mon"))
    for r in roots:
        for dp, dn, fn in os.walk(r):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".h", ".hpp", ".hh")):
                    p = os.path.join(dp, f)
                    h.update(os.path.relpath(p, r).encode() + b"\0")
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def includes():
    inc = ["-I" + os.path.join(VERIF, "cfg"), "-I" + os.path.join(VERIF, "mon")]
    for d in DIRS:
        inc.append("-I" + os.path.join(REPO, "src", d))
    inc.append("-isystem/usr/include/coin")
    return inc


def mon_sources():
    d = os.path.join(VERIF, "mon")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp"))


def build(flavour="asan", quiet=True):
    """Returns the path of the monitor executable."""
    os.makedirs(os.path.join(BUILD, flavour), exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock." + flavour), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(flavour, quiet)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


def _build(flavour, quiet):
    t0 = time.time()
    flags = FLAVOURS[flavour] + COMMON + includes()
    hds = {"r": header_digest(False), "m": header_digest(True)}
    srcs = [(p, "r") for p in repo_sources()] + [(p, "m") for p in mon_sources()]
    if len(srcs) < 30:
        raise BuildError("suspiciously few sources: %d" % len(srcs))
    objs, todo = [], []
    for p, kind in srcs:
        h = hashlib.sha256()
        h.update(" ".join(flags).encode())
        h.update(hds[kind].encode())
        h.update(p.encode())
        h.update(open(p, "rb").read())
        o = os.path.join(BUILD, flavour, os.path.basename(p)[:-4] + "." + h.hexdigest()[:24] + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((p, o))
    # large first
    todo.sort(key=lambda t: -os.path.getsize(t[0]))

    def comp(t):
        p, o = t
        tmp = o + ".tmp.%d" % os.getpid()
        r = subprocess.run(flags + ["-c", p, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return (p, r.stdout)
        os.rename(tmp, o)
        return None

    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        errs = [e for e in ex.map(comp, todo) if e]
    if errs:
        raise BuildError("compilation failed: " + "\n".join("%s\n%s" % (p, t[-3000:]) for p, t in errs[:3]))
    hh = hashlib.sha256("\n".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, flavour, "mon." + hh)
    if not os.path.exists(exe):
        tmp = exe + ".tmp.%d" % os.getpid()
        r = subprocess.run(FLAVOURS[flavour] + ["-g1", "-pthread", "-rdynamic"] + objs + ["-o", tmp] + LIBS,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("link failed: " + r.stdout[-4000:])
        os.rename(tmp, exe)
        # drop objects and executables no longer referenced
        keep = set(objs) | {exe}
        d = os.path.join(BUILD, flavour)
        stale = sorted((os.path.join(d, f) for f in os.listdir(d) if os.path.join(d, f) not in keep),
                       key=lambda p: os.path.getmtime(p))
        for p in stale[:-600] if len(stale) > 600 else []:
            try:
                os.unlink(p)
            except OSError:
                pass
        exes = [p for p in stale if os.path.basename(p).startswith("mon.") and os.path.exists(p)]
        for p in exes[:-4]:
            try:
                os.unlink(p)
            except OSError:
                pass
    if not quiet or todo:
        print("build[%s]: %d compiled, %d cached, %.1fs" % (flavour, len(todo), len(objs) - len(todo),
                                                           time.time() - t0), flush=True)
    return exe


if __name__ == "__main__":
    for f in sys.argv[1:] or ["asan"]:
        print(build(f, quiet=False))
