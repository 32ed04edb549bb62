#!/usr/bin/env python3
"""run_check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's working tree.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: no answer."""
import argparse, collections, concurrent.futures as cf, json, os, shutil, sys, threading, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, tour
from checks import CHECKS

EVID = os.path.join(lib.VERIF, "evidence")
OUT = os.path.join(lib.VERIF, "out")


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.cfg = CHECKS[prop]
        self.work = os.path.join(lib.BUILD, "work", "%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.lock = threading.Lock()
        self.violations, self.notes = [], []
        self.states = self.transitions = self.traces = self.events = 0
        self.kinds = collections.Counter()
        self.models, self.graphs, self.samples = [], [], []

    # ---- one trace: run the driver, let TLC decide
    def once(self, exe, t, seed, script, tag):
        f = os.path.join(self.work, "%s.ndjson" % tag)
        st, err = lib.run_driver(exe, f, seed, t["n"], t["mode"], script, timeout=t.get("timeout", 120), cwd=self.work)
        if not os.path.exists(f):
            raise lib.CheckError("driver wrote no trace: %s" % err)
        r = lib.tlc(t["trace"], env={"TRACE": f, **t.get("env", {})}, timeout=600, heap=t.get("heap", "2g"))
        if r.timeout:
            raise lib.CheckError("TLC did not finish on %s" % tag)
        n = sum(1 for _ in open(f))
        rejected = not r.ok
        if rejected and "REJECTED" not in r.out and r.depth == 0:
            # nothing was evaluated: the specification itself cannot be loaded
            raise lib.CheckError("TLC failed on %s\n%s" % (tag, r.tail(30)))
        return f, st, err, r, n, rejected

    def trace_job(self, exe, t, seed, script, tag):
        f, st, err, r, n, rejected = self.once(exe, t, seed, script, tag)
        with self.lock:
            self.traces += 1
            self.events += n
            self.states += r.distinct
            self.transitions += r.generated
            with open(f) as fh:
                for k, line in enumerate(fh):
                    try:
                        ev = json.loads(line)
                    except ValueError:
                        continue
                    self.kinds[ev["e"] + ("" if "k" not in ev or not isinstance(ev["k"], str) else ":" + ev["k"])] += 1
                    if len(self.samples) < 4 and k in (2, 5):
                        self.samples.append(line.strip()[:400])
        if rejected:
            f2, st2, err2, r2, n2, rej2 = self.once(exe, t, seed, script, tag + "-again")
            if not rej2:
                with self.lock:
                    self.notes.append("rejection of %s was not repeated" % tag)
                    self.traces += 0
                return
            self.report(exe, t, seed, script, tag, f2, st2, err2, r2)
        else:
            os.unlink(f)

    def report(self, exe, t, seed, script, tag, f, st, err, r):
        d = os.path.join(OUT, self.prop)
        os.makedirs(d, exist_ok=True)
        lines = open(f).read().splitlines()
        at = min(max(r.depth, 1), len(lines)) if lines else 0
        rp = os.path.join(d, "%s.txt" % tag)
        tr = os.path.join(d, "%s.ndjson" % tag)
        shutil.copy(f, tr)
        if script:
            shutil.copy(script, os.path.join(d, "%s.script" % tag))
        with open(rp, "w") as o:
            o.write("property %s: the recorded execution is not a behaviour of spec/%s.tla\n" % (self.prop, t["trace"]))
            o.write("driver harness/%s.cpp mode=%s seed=%d n=%d status=%s\n" % (t["driver"], t["mode"], seed, t["n"], st))
            o.write("trace: %s\nfirst line without an allowed step: %d of %d\n" % (tr, at, len(lines)))
            for k in range(max(0, at - 6), min(len(lines), at)):
                o.write("%d: %s\n" % (k + 1, lines[k]))
            if st != "ok":
                o.write("driver: %s\n" % err)
            if "REJECTED" not in r.out:
                o.write(r.tail(40) + "\n")
        with self.lock:
            self.violations.append((rp, lines[at - 1][:300] if lines else "(empty trace)"))

    # ---- bounded exhaustive model
    def model_job(self, m):
        r = lib.tlc(m["module"], cfg=m.get("cfg"), env=m.get("env"), timeout=m.get("timeout", 600),
                    workers=m.get("workers", 2), heap=m.get("heap", "3g"), args=[] if m.get("nocov") else ["-coverage", "60"])
        if r.timeout:
            if m.get("may_timeout"):
                self.notes.append("model %s stopped by its time limit after %d states" % (m["module"], r.distinct))
                return
            raise lib.CheckError("model %s did not finish" % m["module"])
        if not r.ok:
            raise lib.CheckError("model %s is not accepted by TLC (specification error)\n%s" % (m["module"], r.tail(60)))
        dead = [a for a, c in r.coverage.items() if c == 0 and a not in m.get("may_be_dead", ())]
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            self.models.append({"module": m["module"], "cfg": m.get("cfg", m["module"]), "distinct_states": r.distinct,
                                "states_generated": r.generated, "depth": r.depth, "actions_never_taken": dead,
                                "wall_s": round(r.wall, 1)})

    # ---- test generation from a specification's transition graph
    def gen_job(self, g):
        r = lib.tlc(g["module"], env=g.get("env"), timeout=600, heap="3g")
        if not r.ok:
            raise lib.CheckError("generation model %s failed\n%s" % (g["module"], r.tail(40)))
        e = tour.edges(r.out)
        walks, cov, total = tour.tours(e, g["start"], seed=self.seed, maxlen=g.get("maxlen", 400))
        files = []
        per = max(1, -(-len(walks) // g.get("shards", 4)))
        name = g["module"] + "".join("-" + str(v) for v in g.get("env", {}).values())
        for k in range(0, len(walks), per):
            fn = os.path.join(self.work, "%s-%d.script" % (name, k // per))
            with open(fn, "w") as o:
                for w in walks[k:k + per]:
                    o.write(g["header"] + "\n")
                    for op in w:
                        o.write(" ".join(str(x) for x in op) + "\n")
            files.append(fn)
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            self.graphs.append({"module": g["module"], "env": g.get("env", {}), "states": r.distinct, "edges": total,
                                "edges_executed": cov, "walks": len(walks), "steps": sum(map(len, walks))})
        return files

    def main(self):
        c, thorough = self.cfg, self.tier == "thorough"
        t0 = time.time()
        traces = [t for t in c.get("traces", []) if thorough or not t.get("thorough")]
        specs = list(traces) + [g for g in c.get("gens", []) if thorough or not g.get("thorough")]
        keys = {}
        for t in specs:
            t["_key"] = (t["driver"], tuple(t.get("objects", ())), bool(t.get("sqlite")), tuple(t.get("flags", ())))
            keys[t["_key"]] = None
        lib.build_runtime()
        for k, exe in zip(keys, lib.parallel([lambda k=k: lib.build_driver(k[0], objects=k[1], sqlite=k[2], flags=k[3]) for k in keys])):
            keys[k] = exe
        for t in specs:
            t["_exe"] = keys[t["_key"]]
        tb = time.time() - t0
        with cf.ThreadPoolExecutor(lib.NCPU) as ex:
            futs = []
            for m in c.get("models", []):
                if m.get("thorough") and not thorough:
                    continue
                futs.append(ex.submit(self.model_job, m))
            gfuts = [(g, ex.submit(self.gen_job, g)) for g in c.get("gens", []) if thorough or not g.get("thorough")]
            for ti, t in enumerate(traces):
                shards = t.get("thorough_shards", t.get("shards", 4) * 6) if thorough else t.get("shards", 4)
                for k in range(shards):
                    s = self.seed * 1000 + k
                    futs.append(ex.submit(self.trace_job, t["_exe"], t, s, None, "%s-%s-%d-%d" % (t["driver"], t["mode"], ti, s)))
            for g, gf in gfuts:
                for k, script in enumerate(gf.result()):
                    t = dict(driver=g["driver"], trace=g["trace"], mode=g.get("mode", "script"), n=0, env=g.get("tenv", {}))
                    futs.append(ex.submit(self.trace_job, g["_exe"], t, self.seed * 1000 + k, script,
                                          os.path.basename(script)[:-7]))
            errs = []
            for f in futs:
                try:
                    f.result()
                except lib.CheckError as x:
                    errs.append(str(x))
        if errs and not self.violations:
            raise lib.CheckError("\n".join(errs))
        known = [(k, self.probe(k)) for k in c.get("known", [])]
        known = [(k, x) for k, x in known if x]
        self.evidence(time.time() - t0, tb, errs)
        for rp, what in self.violations[:3]:
            lib.log("rejected: %s" % what)
        if self.violations:
            lib.log("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][0]))
            return 1
        lib.log("%s held: %d traces (%d events) accepted, %d states, %d transitions, %.0f s (build %.0f s)" %
                (self.prop, self.traces, self.events, self.states, self.transitions, time.time() - t0, tb))
        for k, text in known:
            lib.log("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        return 0

    def probe(self, k):
        """A recorded defect: its input is still run; the finding is repeated while the code has the defect."""
        exe = lib.build_driver(k["driver"], objects=tuple(k.get("objects", ())), sqlite=bool(k.get("sqlite")), flags=tuple(k.get("flags", ())))
        r = self.once(exe, k, self.seed, None, "known-" + k["probe"])
        if not r[5]:
            return None  # repaired
        mark = "known: property=%s probe=%s " % (self.prop, k["probe"])
        for line in open(os.path.join(lib.VERIF, "KNOWN_FINDINGS.md")):
            line = line.strip().lstrip("-* ")
            if line.startswith(mark):
                return line[len(mark):]
        self.report(exe, k, self.seed, None, "known-" + k["probe"], *r[:4])
        return None

    def evidence(self, wall, tb, errs):
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "trace_events": self.events,
                           "events_by_kind": dict(self.kinds.most_common(60)), "models": self.models,
                           "generated_graphs": self.graphs, "samples": self.samples, "notes": self.notes + errs},
              "assumptions": self.cfg.get("assumptions", []) + [
                  "gcc, libstdc++, AddressSanitizer and TLC work as documented",
                  "behaviour is observed on the executions driven; the specification is exhaustive only within its bounds"],
              "wall_s": round(wall, 1), "violations": len(self.violations)}
        tmp = os.path.join(EVID, ".%s.json.tmp" % self.prop)
        json.dump(ev, open(tmp, "w"), indent=1)
        os.rename(tmp, os.path.join(EVID, "%s.json" % self.prop))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    r = Run(a.property, a.tier, seed)
    try:
        rc = r.main()
    except lib.CheckError as x:
        lib.log("ERROR: %s" % x)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    if not a.keep:
        shutil.rmtree(r.work, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
