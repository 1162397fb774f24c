"""Writes DESIGN.md from tools/design_head.md, tools/design_tail.md, the check modules and tools/design_props.json."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "tools/design_props.json")))
out = [open(os.path.join(V, "tools/design_head.md")).read()]
for p in props:
    m = importlib.import_module("mc.checks." + p["id"].lower())
    n = notes.get(p["id"], {})
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"*Method.* {m.TECHNIQUE}.\n")
    out.append(f"*Bounds.* {m.NOTE} Enumeration: {m.RULE}.\n")
    for k, t in (("oracle", "Oracle"), ("reach", "Beyond the tests"), ("scope", "Scope"), ("cost", "Cost")):
        if n.get(k):
            out.append(f"*{t}.* {n[k]}\n")
    if m.ASSUMPTIONS:
        out.append("*Assumptions.* " + "; ".join(m.ASSUMPTIONS) + ".\n")
    fams = ", ".join(f for f, _ in m.families("quick"))
    out.append(f"*Families (each enumerated completely).* {fams}.\n")
out.append(open(os.path.join(V, "tools/design_tail.md")).read())
rows = []
det = json.load(open(os.path.join(V, "tools/detected.json"))) if os.path.exists(os.path.join(V, "tools/detected.json")) else {}
for d in sorted(os.listdir(os.path.join(V, "seeded"))) if os.path.isdir(os.path.join(V, "seeded")) else []:
    meta = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {meta['property']} | {meta['needs']} | {det.get(d, 'not run')} |")
if rows:
    out.append("\n| change | property | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
print(len("\n".join(out)), "characters")
