#!/usr/bin/env python3
"""Writes MANIFEST.json from check.MODULES and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from check import MODULES, NOTES
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in MODULES:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique="TLA+ specification checked by TLC; " + NOTES[MODULES[i]][0],
                           level="model_checking", level_note=NOTES[MODULES[i]][1]))
    else:
        na.append(dict(property=i, reason="its specification and conformance check are not built yet"))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks: everything is observed at the public interface. The fix: commits in /repo and the known finding are listed in known_findings.json.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
