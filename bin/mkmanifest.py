#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/checks.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + "/bin/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in conf:
        c = conf[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 bin/check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c["technique"] + ("; thorough: and coverage-guided fuzzing" if c.get("fuzz") else ""),
            "level": "exploration",
            "level_note": c["note"],
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 bin/check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check drives the exported API of /repo from a separate Go module (harness/) that replaces the module path with /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
