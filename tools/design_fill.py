#!/usr/bin/env python3
"""fills the generated lists of DESIGN.md: repaired defects (known_findings.json), planted bugs (seeded/), mutants (tools/mutants.json)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(f"{V}/DESIGN.md").read()

def put(tag, text):
    global s
    s = re.sub(f"<!-- {tag} -->\n.*?<!-- /{tag} -->", lambda m: f"<!-- {tag} -->\n{text}\n<!-- /{tag} -->", s, flags=re.S)

fs = json.load(open(f"{V}/known_findings.json"))["findings"]
out = {}
for f in fs:
    if f["status"] != "fixed": continue
    out.setdefault(f["property"], []).append(f"{f['what'].split(f['commit'] + ' ', 1)[-1]} (`{f['commit']}`)")
put("fixes", "\n".join(f"- **{p}**: " + "; ".join(v) + "." for p, v in sorted(out.items())))
rows = ["| id | property | what breaks | needs | caught by |", "|----|----------|-------------|-------|-----------|"]
for d in sorted(os.listdir(f"{V}/seeded")) if os.path.isdir(f"{V}/seeded") else []:
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
put("seeds", "\n".join(rows))
p = f"{V}/tools/mutants.json"
if os.path.exists(p):
    ms = json.load(open(p))
    rows = ["| property | mutants | caught | survivors |", "|----------|---------|--------|-----------|"]
    for pid, m in sorted(ms.items()):
        rows.append(f"| {pid} | {m['n']} | {m['caught']} | {m.get('notes', '') or '–'} |")
    put("mutants", "\n".join(rows))
open(f"{V}/DESIGN.md", "w").write(s)
