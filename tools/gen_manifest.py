#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks as K
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
m = {"version": 1, "setup_cmd": "python3 -m py_compile run_check.py build.py checks.py && mkdir -p evidence build",
     "checks": [], "not_applicable": []}
for i in ids:
    if i in K.CHECKS:
        c = K.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 run_check.py " + i,
                            "thorough_cmd": "VERIF_TIER=thorough python3 run_check.py " + i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": "property-based testing: " + c["note"],
                            "level": "exploration",
                            "level_note": "random search with shrinking over generated cases; assumes: " + "; ".join(c["assumptions"])})
    else:
        m["not_applicable"].append({"property": i, "reason": K.NOT_CLAIMED.get(i, "its check is not built yet") if hasattr(K, "NOT_CLAIMED") else "its check is not built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
