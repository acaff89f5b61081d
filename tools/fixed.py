#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT: record a repaired defect in known_findings.json"""
import json, subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "known_findings.json"); k = json.load(open(p))
for prop, commit in zip(sys.argv[1::2], sys.argv[2::2]):
    t = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%s", commit], text=True).strip()
    assert t.startswith("fix: ")
    k["fixed"].append("fixed: property=%s %s %s" % (prop, commit, t[5:]))
json.dump(k, open(p, "w"), indent=1)
