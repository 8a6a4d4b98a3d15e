#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl (run by hand)."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from checks import CHECKS
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 setup.py", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                                evidence_file="evidence/%s.json" % i, technique=c["technique"], level="exploration", level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason="monitor not built yet"))
m["notes"] = "No hooks in /repo: every monitor observes the public API boundary of an instrumented build of the unmodified sources. Known and fixed findings: known_findings.json."
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
