#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registry and the property list."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from techniques import TECH, NA
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in TECH:
        t, note = TECH[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p,
                       "thorough_cmd": "python3 check.py %s thorough" % p,
                       "technique": t, "level": "model_checking", "level_note": note})
na = [{"property": p, "reason": NA.get(p, "not built yet")} for p in props if p not in TECH]
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no instrumentation hooks are needed: the checks observe the public API", "source_commits": []}}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
