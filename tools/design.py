#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design_head.md, the checks' own descriptions, tools/design_tail.md and known_findings.json."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
T = {}
exec(open(os.path.join(V, "tools", "design_text.py")).read(), T)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
kf = json.load(open(os.path.join(V, "known_findings.json")))
out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), "", "## Properties", ""]
for p in props:
    c = importlib.import_module("checks." + p["id"].lower()).CHECK
    t = T["TEXT"].get(p["id"], ["", ""])
    out += ["### %s %s" % (p["id"], p["title"]), "", "*Generated:* " + c.rule[0].upper() + c.rule[1:] + ".", ""]
    if t[0]: out += ["*Oracle:* " + t[0], ""]
    if t[1]: out += ["*Why tests cannot settle it:* " + t[1], ""]
    if c.assumptions: out += ["*Assumed / left out:* " + "; ".join(c.assumptions) + ".", ""]
    out += ["*Cases:* %d quick, %d thorough%s." % (c.quick, c.thorough, "; a failure may depend on the schedule and is confirmed by up to 30 repetitions" if c.flaky else ""), ""]
out += ["## Defects found and repaired", "", "Each is one `fix:` commit in /repo; the check named reports it again if it returns.", ""]
out += ["* " + f.replace("fixed: property=", "") for f in kf["fixed"]]
out += ["", "## Known findings (not repaired)", ""]
out += ["* **%s** (%s): %s" % (f["id"], f["property"], f["what"]) for f in kf["findings"]]
tail = open(os.path.join(V, "tools", "design_tail.md")).read().rstrip()
rows = ["| change | what it breaks | needs | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (s, m["what_it_breaks"], m["needs"], T.get("CAUGHT", {}).get(s, m["property"])))
tail = tail.replace("@SEEDS@", "\n".join(rows))
out += ["", tail, ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
