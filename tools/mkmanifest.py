#!/usr/bin/env python3-vt
"""Write MANIFEST.json from the registered contracts."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pv import run
from check import BOUNDED

NOTES = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())
props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
tasks = run.load()
checks, na = [], []
for p in props:
    ts = [t for t in tasks if p in t.prop]
    if not ts:
        na.append({"property": p, "reason": NA.get(p, "contracts not written yet")})
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"python3-vt check.py {p} --tier quick",
        "thorough_cmd": f"python3-vt check.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": BOUNDED_TECHNIQUE if p in BOUNDED else TECHNIQUE,
        "level": "exploration" if p in BOUNDED else "proof",
        "level_note": NOTES.get(p, "") + COMMON})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import numpy, numba, pandas'",
     "hooks": {"guard": "none", "enable": "no hooks: the checks read and run the unmodified source", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Repairs of genuine defects are the fix: commits in /repo, listed in KNOWN_FINDINGS.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed;", [x["property"] for x in na], "not")
