#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in checks/ (run: python3 tools/manifest.py)."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import importlib
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(V, "checks", p["id"].lower() + ".py")
    if os.path.exists(f):
        c = importlib.import_module("checks." + p["id"].lower()).CHECK
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
            thorough_cmd="python3 check.py %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
            technique=getattr(c, "technique", "property-based testing: generated inputs against an independent reference model"),
            level="exploration", level_note=getattr(c, "level_note", "Search over generated cases with fixed seeds; shows violations, not their absence. Trusts the Python reference model and the harness.")))
    else:
        na.append(dict(property=p["id"], reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 -m vf.build asan tsan", hooks=dict(guard="none", enable="no hooks are needed: the checks build /repo as it is", source_commits=[]),
               checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "open")
