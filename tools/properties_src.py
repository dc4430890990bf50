#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/properties_src.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
S = "src/"
L = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    if len(title) > 80: print("TITLE", id, len(title))
    L.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": [S + f for f in files],
                          "mechanism": [{"name": a, "where": S + b} for a, b in mech],
                          **({"state": [{"name": a, "meaning": b, "where": S + c} for a, b, c in state]} if state else {}),
                          "observe_at": observe or [], "hook_needed": None}})


exec(open(os.path.join(V, "tools", "properties_text.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in L:
        f.write(json.dumps(x) + "\n")
ids = [x["id"] for x in L]
assert len(set(ids)) == len(ids)
title = {x["id"]: x["title"] for x in L}
checks = []
for i in ids:
    if i not in props.P:
        continue
    s = props.P[i]
    checks.append({"property": i, "quick_cmd": f"python3 run.py {i} quick",
                   "thorough_cmd": f"python3 run.py {i} thorough",
                   "technique": s.get("technique", "runtime monitoring: seeded workloads on the real code under ASan/UBSan, reference-model oracle"),
                   "level": s.get("level", "exploration"),
                   "level_note": s.get("level_note", "Holds on the executions the seed and tier generate; trusts the harness's reference "
                                       "model and the sanitizer runtime. Nothing is claimed about inputs or schedules not run.")})
na = [{"property": i, "reason": NA.get(i, "no check built yet")} for i in ids if i not in props.P]
m = {"version": 1, "setup_cmd": "python3 lib/build.py asan", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "SPS_VERIF", "enable": "-DSPS_VERIF (lib/build.py); no source hook needed so far: the monitors sit at the public interfaces and at link-time wraps of libc/libst calls", "source_commits": []},
     "notes": "Every check builds its harness from /repo's working tree into /verif/build (git-ignored) with AddressSanitizer and a fatal UBSan subset, then runs it. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(ids), "properties,", len(checks), "claimed")
