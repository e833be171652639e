#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from suites.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from suites import PROPS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "python3 run.py check %s --tier quick" % i,
                       "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification checked with TLC, bound by trace validation and replay of TLC-enumerated cases",
                       "level": "model_checking", "level_note": PROPS[i].get("note", "")})
    else:
        na.append({"property": i, "reason": "not claimed yet: machinery under construction"})
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "none", "enable": "no hooks are needed: all observed state is reachable through the public API", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Exit 2 marks an error of the check itself. Repairs made in /repo are listed in known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
