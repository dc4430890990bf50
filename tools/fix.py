#!/usr/bin/env python3
"""fix.py PROPERTY 'commit message' 'what failed': commits /repo's changes and records the fix"""
import json, subprocess, sys
pid, msg, what = sys.argv[1:4]
g = ["git", "-C", "/repo"]
subprocess.check_call(g + ["add", "-u"])
subprocess.check_call(g + ["commit", "-qm", "fix: " + msg])
h = subprocess.check_output(g + ["log", "-1", "--format=%h"], text=True).strip()
k = "/verif/known_findings.json"
d = json.load(open(k))
d["findings"].append({"property": pid, "status": "fixed", "commit": h, "key": "-", "what": f"fixed: property={pid} {h} {what}"})
json.dump(d, open(k, "w"), indent=1)
print(h)
