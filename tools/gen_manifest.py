#!/usr/bin/env python3
"""Writes MANIFEST.json from props.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(V + "/props.json"))
checks = []
for pid in sorted(P):
    c = P[pid]
    if c.get("na"):
        continue
    proof = c["level"] == "proof"
    tech = "contracts on the real functions, discharged by Verus; bounded harness for replay" if proof else c.get("technique", "bounded check of the real functions (no contract within reach yet), not counted as proved")
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid} quick", "thorough_cmd": f"python3 check.py {pid} thorough",
                   "evidence_file": f"evidence/{pid}.json", "technique": c.get("technique", tech), "level": c["level"], "level_note": c["note"]})
    if c.get("theorems"):
        checks[-1]["theorems"] = c["theorems"]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": P[p]["na"]} for p in sorted(P) if P[p].get("na")],
     "notes": "No hooks in /repo. check.py extracts /repo's functions, verifies them against contracts/*.vc with Verus, and runs the bounded harness. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
