"""Write MANIFEST.json from the table of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from manifest_table import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
na = dict(NOT_APPLICABLE)
for p in props:
    if p not in CHECKS and p not in na:
        na[p] = "check under construction"
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": p, "quick_cmd": "python3 checks/run.py %s quick" % p,
                 "thorough_cmd": "python3 checks/run.py %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p,
                 "technique": t, "level": "model_checking", "level_note": n}
                for p, (t, n) in sorted(CHECKS.items())],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(na.items()) if p not in CHECKS]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
