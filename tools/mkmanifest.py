"""Writes MANIFEST.json from vt/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vt"))
from checks import CHECKS
NA = {"G01": "needs the Java code generator, which cannot be built or run here (no JDK dependencies/zserio core); the "
             "specification binds the generated test objects that are in the repository through T01, V02, W01, R01-R03 instead"}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p["id"] in CHECKS:
        c = CHECKS[p["id"]]
        tr = sorted({t["trace"] for t in c.get("traces", []) + c.get("gens", [])})
        md = sorted({m.get("cfg", m["module"]) for m in c.get("models", [])})
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 vt/run_check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 vt/run_check.py %s --tier thorough" % p["id"],
            "technique": "TLA+/TLC: trace validation of the real code against %s%s%s" % (", ".join(tr),
                "; spec-generated transition tours" if c.get("gens") else "", "; exhaustive bounded models " + ", ".join(md) if md else ""),
            "level": "model_checking",
            "level_note": c.get("note", "Every recorded execution of the real code is decided step by step by the TLA+ "
                "specification; the specification's own invariants are exhaustive within small bounds. Assurance covers the "
                "driven executions (seeded random plus spec-derived), not all inputs.")})
    elif p["id"] not in NA:
        NA[p["id"]] = "no check built yet"
m = {"version": 1, "setup_cmd": "python3 vt/setup.py",
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "TLA+ specifications in spec/, drivers in harness/, runner in vt/. No hooks in /repo: the public API exposes the "
              "abstract state."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
