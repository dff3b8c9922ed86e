#!/usr/bin/env python3
"""Write MANIFEST.json from checks.py and properties.jsonl, and validate it."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 /verif/check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({
            "property": i, "quick_cmd": "VERIF_TIER=quick python3 /verif/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 /verif/check.py " + i,
            "evidence_file": "evidence/%s.json" % i, "level": "model_checking",
            "technique": "bounded symbolic execution of the compiled code's LLVM IR, assertions decided by an SMT solver (sevm + z3), counterexamples replayed natively",
            "level_note": "Holds for every input within the bounds, nothing is claimed outside them. Bounds: " + CHECKS[i]["bounds"] + (" Outside: " + CHECKS[i]["outside"] if CHECKS[i].get("outside") else "") + " Trusts rustc's lowering to IR, sevm's semantics of it (sampled paths are replayed against the native code on every run) and z3."})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "The check for this property is not built yet.")})
m["notes"] = "No hooks in /repo are needed: the harnesses use the public API only."
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
