#!/usr/bin/env python3
"""Writes the per-property section and the table of planted bugs into DESIGN.md (everything after the marker is generated)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
MARK = "<!-- generated by tools/design.py -->\n"
s = open(f"{V}/DESIGN.md").read().split(MARK)[0]
out = [MARK, "## Properties\n"]
m = json.load(open(f"{V}/MANIFEST.json"))
ch = {c["property"]: c for c in m["checks"]}
na = {c["property"]: c["reason"] for c in m["not_applicable"]}
for ln in open(f"{V}/properties.jsonl"):
    p = json.loads(ln)
    i = p["id"]
    out.append(f"\n### {i} {p['title']}\n")
    out.append(p["statement"] + "\n")
    if i in ch:
        mod = importlib.import_module("checks." + i.lower())
        out.append(f"\n* Decided by: {ch[i]['technique']} (level: {ch[i]['level']}).")
        out.append(f"* Workload and oracle: {mod.RULE}")
        out.append(f"* Bounds: {mod.COUNTS['quick']} generated cases (quick), {mod.COUNTS['thorough']} (thorough). {ch[i]['level_note']}")
        out.append(f"* Why tests cannot: {p['why_tests_cant']}")
        for a in getattr(mod, "ASSUMPTIONS", []):
            out.append(f"* Assumes: {a}")
    else:
        out.append(f"\n* Not claimed: {na[i]}")
out.append("\n## Planted bugs\n\n| id | property | needs | caught |\n|---|---|---|---|")
try:
    caught = json.load(open(f"{V}/tools/caught.json"))
except OSError:
    caught = {}
for i in sorted(os.listdir(f"{V}/seeded")):
    mp = f"{V}/seeded/{i}/meta.json"
    if os.path.exists(mp):
        d = json.load(open(mp))
        out.append(f"| {i} | {d['property']} | {d['needs']} | {caught.get(i, '?')} |")
open(f"{V}/DESIGN.md", "w").write(s + "\n".join(out) + "\n")
