"""Building drivers from /repo, running them, running TLC."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself cannot give an answer (exit 2)."""


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building
SRC = os.path.join(REPO, "runtime/src")
TESTOBJ = os.path.join(REPO, "runtime/test")
SQLITE = os.path.join(REPO, "3rdparty/cpp/sqlite3")
CXX = ["g++", "-std=c++17", "-g1", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-w"]
INC = ["-I" + SRC, "-I" + TESTOBJ, "-I" + HARNESS, "-I" + SQLITE]

_tree_hash = None


def tree_hash():
    """Hash of everything a driver is compiled from in /repo."""
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for root in (SRC, os.path.join(TESTOBJ, "test_object")):
            for d, dirs, files in os.walk(root):
                dirs.sort()
                for f in sorted(files):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
        _tree_hash = h.hexdigest()[:16]
    return _tree_hash


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def _objdir():
    d = os.path.join(BUILD, tree_hash())
    if os.path.isdir(BUILD):  # drop outputs of other trees
        for x in os.listdir(BUILD):
            p = os.path.join(BUILD, x)
            if x != tree_hash() and os.path.isdir(p) and x not in ("sqlite", "work") and time.time() - os.path.getmtime(p) > 3600:
                shutil.rmtree(p, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    return d


def _compile(src, obj, flags=()):
    if not os.path.exists(obj):
        tmp = "%s.%d-%d.tmp" % (obj, os.getpid(), threading.get_ident())
        _run(CXX + list(flags) + INC + ["-c", src, "-o", tmp])
        os.rename(tmp, obj)
    return obj


def _hash_files(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:12]


def _runtime_jobs(od):
    jobs = []
    for d, _, files in os.walk(os.path.join(SRC, "zserio")):
        for f in sorted(files):
            if f.endswith(".cpp"):
                jobs.append((os.path.join(d, f), os.path.join(od, "rt_%s.o" % f[:-4]), ()))
    return jobs


def build_runtime():
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda j: _compile(*j), _runtime_jobs(_objdir())))


def build_driver(name, objects=(), sqlite=False, flags=()):
    """Compile harness/<name>.cpp with the runtime (and generated test objects) of /repo's working tree."""
    od = _objdir()
    hh = [os.path.join(HARNESS, f) for f in sorted(os.listdir(HARNESS)) if f.endswith(".h")]
    src = os.path.join(HARNESS, name + ".cpp")
    exe = os.path.join(od, "%s-%s" % (name, _hash_files([src] + hh, " ".join(flags) + str(objects))))
    if os.path.exists(exe):
        return exe
    jobs = _runtime_jobs(od)
    for o in objects:  # directories of generated sources below runtime/test/test_object
        d = os.path.join(TESTOBJ, "test_object", o)
        for f in sorted(os.listdir(d)):
            if f.endswith(".cpp"):
                jobs.append((os.path.join(d, f), os.path.join(od, "to_%s_%s.o" % (o, f[:-4])), ()))
    dobj = exe + ".o"
    jobs.insert(0, (src, dobj, tuple(flags)))
    sqobj = []
    if sqlite:
        sqobj = [build_sqlite()]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda j: _compile(*j), jobs))
    _run(CXX + objs + sqobj + ["-lpthread", "-ldl", "-o", exe + ".tmp%d-%d" % (os.getpid(), threading.get_ident())])
    os.rename(exe + ".tmp%d-%d" % (os.getpid(), threading.get_ident()), exe)
    return exe


def build_sqlite():
    """SQLite amalgamation shipped with the repository, if there is one, else the system library."""
    for c in (os.path.join(SQLITE, "sqlite3.c"),):
        if os.path.exists(c):
            d = os.path.join(BUILD, "sqlite")
            os.makedirs(d, exist_ok=True)
            o = os.path.join(d, "sqlite3-%s.o" % _hash_files([c]))
            if not os.path.exists(o):
                _run(["gcc", "-O1", "-w", "-DSQLITE_THREADSAFE=0", "-DSQLITE_OMIT_LOAD_EXTENSION", "-c", c, "-o", o + ".tmp"])
                os.rename(o + ".tmp", o)
            return o
    return "-lsqlite3"


# ---------------------------------------------------------------- running
def run_driver(exe, out, seed, n, mode="random", script=None, timeout=240, cwd=None):
    """Returns (status, stderr tail). status: 'ok', 'crash', 'timeout'."""
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"
    cmd = [exe, out, str(seed), str(n), mode] + ([script] if script else [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
    except subprocess.TimeoutExpired:
        return "timeout", "driver did not finish within %d s" % timeout
    if r.returncode == 0:
        return "ok", ""
    return "crash", "exit code %d\n%s" % (r.returncode, r.stderr.decode("utf-8", "replace")[:6000])


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ","))
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.ok = rc == 0 and "No error has been found" in out
        self.timeout = rc == "timeout"
        self.coverage = {}
        for m in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)", out, re.M):
            self.coverage[m.group(1)] = max(self.coverage.get(m.group(1), 0), int(m.group(3)))

    def tail(self, n=40):
        return "\n".join(self.out.splitlines()[-n:])


def tlc(module, cfg=None, env=None, timeout=600, workers=1, heap="2g", meta=None, args=()):
    meta = meta or os.path.join(BUILD, "work", "meta-%d-%s-%f" % (os.getpid(), module, time.time()))
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC", "-config", (cfg or module) + ".cfg", "-metadir", meta,
           "-workers", str(workers), "-noGenerateSpecTE", "-deadlock"] + list(args) + [module + ".tla"]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout)
        rc, out = r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        rc, out = "timeout", (x.stdout or b"").decode("utf-8", "replace")
    shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(rc, out, time.time() - t)


def parallel(jobs, width=NCPU):
    """jobs: list of callables; returns their results in order."""
    with cf.ThreadPoolExecutor(width) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]
