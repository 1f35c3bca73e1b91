#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand; the output is committed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import build, plan
V = build.VERIF
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTES = json.load(open(V + "/tools/notes.json"))
checks = []
for p in props:
    i = p["id"]
    if i not in plan.PARTS:
        continue
    checks.append(dict(
        property=i, quick_cmd="python3 tools/check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + i,
        evidence_file="evidence/%s.json" % i, technique=NOTES.get(i, {}).get("technique", "TLA+ trace validation with TLC"),
        level="model_checking", level_note=NOTES.get(i, {}).get("note", NOTES["*"])))
m = dict(version=1, setup_cmd="python3 tools/selfcheck.py",
         hooks=dict(guard="none in /repo: in-package probes are added at build time", enable="go build -overlay (harness/probes)", source_commits=[]),
         checks=checks,
         not_applicable=[dict(property=p["id"], reason="no check yet") for p in props if p["id"] not in plan.PARTS])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
