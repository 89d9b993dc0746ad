#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from DESIGN.in.md, the rules and the planted bugs."""
import re, json, os, glob
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
rules = {}
for f in sorted(glob.glob("checker/rules_*.go")):
    for m in re.finditer(r'rules\["(C\d+)"\] = rule\{\w+, "((?:[^"\\]|\\.)*)"\}', open(f).read()):
        rules[m.group(1)] = (m.group(2), os.path.basename(f))
notes = {}
if os.path.exists("tools/design_notes.json"): notes = json.load(open("tools/design_notes.json"))
out = []
for l in open("properties.jsonl"):
    p = json.loads(l)
    if p["id"] in rules:
        r, f = rules[p["id"]]
        out.append(f"**{p['id']} {p['title']}** (`checker/{f}`). {r}" + (" " + notes[p["id"]] if p["id"] in notes else ""))
    elif p["id"] not in ("C31", "C32"): out.append(f"**{p['id']} {p['title']}**: not decided yet.")
seeds = ["| bug | property | what it breaks | caught |", "|---|---|---|---|"]
res = json.load(open("tools/seed_results.json")) if os.path.exists("tools/seed_results.json") else {}
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[1]
    seeds.append(f"| {i} | {m['property']} | {m['what_it_breaks']} (needs: {m['needs']}) | {res.get(i, '?')} |")
t = open("tools/DESIGN.in.md").read().replace("@PROPS@", "\n\n".join(out)).replace("@SEEDS@", "\n".join(seeds))
open("DESIGN.md", "w").write(t)
