#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from propdefs.py (and checks them)."""
import json, os
from propdefs import P, NA
from specs import SPECS
V = os.path.dirname(os.path.abspath(__file__))
lines, checks = [], []
for p in P:
    assert p["id"] in SPECS, p["id"]
    assert len(p["title"]) <= 80, p["title"]
    lines.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                  "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}})
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), f
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                   "technique": "symbolic execution of the compiled implementation (LLVM IR instrumentation) with Z3 deciding every branch and assertion",
                   "level": "model_checking", "level_note": p["note"] + ". Bounds: " + SPECS[p["id"]]["bounds"] + ". Trusted: the instrumentation pass and runtime, clang 18, Z3; counterexamples are replayed natively under AddressSanitizer before being reported."})
    assert SPECS[p["id"]]["bounds"], p["id"]
for i, t, s, o, q, w, f, r in NA:
    lines.append({"id": i, "title": t, "statement": s, "quantifier": {"over": o, "text": q}, "why_tests_cant": w, "anchors": {"files": f, "mechanism": []}})
open(V + "/properties.jsonl", "w").write("".join(json.dumps(l) + "\n" for l in lines))
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks,
           "not_applicable": [{"property": n[0], "reason": n[7]} for n in NA],
           "notes": "No hooks in /repo. All checks: engine/ (pass + runtime), harness/ (one per property), run.py (driver), specs.py (sources and bounds)."},
          open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in lines: jsonschema.validate(l, ps)
    jsonschema.validate(json.load(open(V + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid:", len(P), "claimed", len(NA), "not applicable")
except ImportError:
    print("written (jsonschema missing: run with python3-vt)")
