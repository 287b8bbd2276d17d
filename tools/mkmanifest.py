#!/usr/bin/env python3
"""Writes MANIFEST.json from sa/registry.py and the not-applicable reasons below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
import registry
sys.path.insert(0, os.path.join(V, "tools")); from na import NA
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 sa/extract.py legacy tco instr threads",
     "checks": [], "not_applicable": [],
     "notes": "Static analysis only: every check extracts MIR from /repo's working tree with a rustc driver (/verif/driver) and "
              "analyses it; nothing of chiwawa is executed and no solver is used. No hooks were needed in /repo. "
              "known-findings.json lists defects repaired in /repo (fix: commits) and those recorded."}
for i in ids:
    if i in registry.PROPS:
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 sa/check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 sa/check.py %s" % i,
            "technique": registry.TECH[i],
            "level": "other",
            "level_note": registry.NOTE[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not applicable")
