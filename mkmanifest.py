#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (checks whose module exists in props/)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
T = "contract-based deductive verification: VCs generated from /repo's instantiated ASTs, discharged by "
TECH = {}
exec(open(os.path.join(HERE, "manifest_table.py")).read())
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in CLAIMS and os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py")):
        tech, note = CLAIMS[pid]
        checks.append({"property": pid, "quick_cmd": "python3-vt check.py %s" % pid,
                       "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % pid,
                       "technique": T + tech, "level": "proof", "level_note": note})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "no check registered yet in this revision (work in progress)")})
json.dump({"version": 1, "setup_cmd": "python3-vt -c \"import sys; sys.path.insert(0,'.'); from slpv import prog; prog.plugin()\"",
           "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
