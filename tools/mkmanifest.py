#!/usr/bin/env python3
"""Write MANIFEST.json from lib/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from props import PROPS
NA = {}
checks = []
for pid in sorted(PROPS):
    c = PROPS[pid]
    if c.get("na"):
        NA[pid] = c["na"]
        continue
    lvl = c.get("level", "proof")
    tech = c.get("technique") or ("contract-based deductive verification (Verus) of functions extracted from /repo on every run" if c.get("verus") else "bounded differential check of the real code")
    checks.append(dict(property=pid, quick_cmd=f"python3 check.py {pid} quick", thorough_cmd=f"python3 check.py {pid} thorough", technique=tech, level=lvl,
                       level_note=c.get("note") or "see DESIGN.md", evidence_file=f"evidence/{pid}.json"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(NA))
