#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/claims.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(V + "/tools/claims.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 /verif/tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "Static analysis only: /repo's sources are translated to LLVM IR (never run) and analysed by engine/kernel.py and the rules in checks/. KNOWN_FINDINGS lists genuine defects (fixed or recorded)."}
for p in props:
    i = p["id"]
    if i in claims["checks"]:
        c = claims["checks"][i]
        m["checks"].append({"property": i, "quick_cmd": "python3 /verif/check.py " + i,
                            "thorough_cmd": "python3 /verif/check.py %s --thorough" % i,
                            "technique": c["technique"], "level": "other", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": claims["not_applicable"][i]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
