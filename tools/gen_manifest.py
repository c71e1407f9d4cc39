#!/usr/bin/env python3
"""Writes MANIFEST.json: the properties in CLAIMED get a check, the others are listed as not claimed."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
exec(open(root + "/tools/manifest_data.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "technique": TECH.get(i, "runtime monitoring of generated workloads through a fault-injecting UDP proxy"),
            "level": "fault_enumeration" if i == "C09" else "exploration",
            "level_note": NOTE.get(i, "Held on every execution observed; assumes loopback UDP and the harness's own codec."),
        })
    else:
        na.append({"property": i, "reason": "check still under construction"})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": HOOKS, "checks": checks, "not_applicable": na,
     "notes": "Every check observes the public API and the datagrams on the wire; the hook only sets where a connection's counters start."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
