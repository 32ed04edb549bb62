"""coverage.py [FILE...]: which lines of runtime/src the drivers (quick traces of all checks) execute; developer helper.
Prints per file the lines with code that no driver executed (never) or that were never instantiated (absent)."""
import sys, os, json, subprocess, shutil, gzip, re, collections, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vt"))
import lib
from checks import CHECKS
COV = "/tmp/vcov"
lib.BUILD = COV
lib.CXX = ["g++", "-std=c++17", "-O0", "--coverage", "-fprofile-update=atomic", "-w"]
keep = "--keep" in sys.argv
if not keep:
    shutil.rmtree(COV, ignore_errors=True)
    os.makedirs(COV)
    jobs = {}
    for p, c in CHECKS.items():
        for t in c.get("traces", []):
            if t.get("thorough"): continue
            k = (t["driver"], tuple(t.get("objects", ())), bool(t.get("sqlite")), tuple(t.get("flags", ())))
            jobs.setdefault(k, set()).add((t["mode"], t["n"]))
    for k in jobs:
        try:
            exe = lib.build_driver(k[0], objects=k[1], sqlite=k[2], flags=k[3])
        except lib.CheckError as x:
            print(str(x)[-500:]); continue
        for m, n in sorted(jobs[k]):
            st = lib.run_driver(exe, "/tmp/vcov/t.ndjson", 1001, n, m, timeout=600)
            print(k[0], k[3], m, n, st[0], flush=True)
    os.unlink("/tmp/vcov/t.ndjson")
def one(f):
    r = subprocess.run(["gcov", "--json-format", "--stdout", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=os.path.dirname(f))
    out = collections.defaultdict(dict)
    for line in r.stdout.decode().splitlines():
        try: d = json.loads(line)
        except ValueError: continue
        for x in d["files"]:
            if "/runtime/src/" not in x["file"]: continue
            fn = x["file"].split("/runtime/src/zserio/")[-1]
            for l in x["lines"]:
                out[fn][l["line_number"]] = out[fn].get(l["line_number"], 0) + l["count"]
    return out
gc = [os.path.join(d, f) for d, _, fs in os.walk(COV) for f in fs if f.endswith(".gcda")]
tot = collections.defaultdict(dict)
with cf.ThreadPoolExecutor(8) as ex:
    for o in ex.map(one, gc):
        for fn, ls in o.items():
            for l, c in ls.items(): tot[fn][l] = tot[fn].get(l, 0) + c
src = os.path.join(lib.SRC, "zserio")
for d, _, fs in os.walk(src):
    for f in sorted(fs):
        p = os.path.join(d, f); fn = os.path.relpath(p, src)
        L = open(p).read().splitlines()
        got = tot.get(fn, {})
        never = [l for l, c in sorted(got.items()) if c == 0]
        if fn in sys.argv or not [a for a in sys.argv[1:] if a != "--keep"]:
            print("%s: %d executable, %d never" % (fn, len(got), len(never)))
            for l in never: print("   %d: %s" % (l, L[l - 1].strip()[:110]))
# code which no driver instantiates: return/throw/assignment lines without any record
print("=== absent")
for d, _, fs in os.walk(src):
    for f in sorted(fs):
        if not f.endswith((".h", ".cpp")): continue
        p = os.path.join(d, f); fn = os.path.relpath(p, src)
        got = tot.get(fn, {})
        for i, x in enumerate(open(p).read().splitlines(), 1):
            if i in got: continue
            if re.match(r"\s+(return|throw|if \(|for \(|while \(|m_\w+(\.|->| =|\()|\+\+|--)", x):
                print("   %s:%d: %s" % (fn, i, x.strip()[:110]))
