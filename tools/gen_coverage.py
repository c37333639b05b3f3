#!/usr/bin/env python3
"""Rewrites the measured tables of DESIGN.md from evidence/*.json (quick tier) and tools/catches.txt."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["| id | wall s | cases | states | transitions | groups (cases) |", "|---|---|---|---|---|---|"]
for i in range(1, 40):
    p = os.path.join(here, f"evidence/C{i:02}.json")
    if not os.path.exists(p): continue
    d = json.load(open(p)); c = d["coverage"]; g = c.get("groups", [])
    s = lambda k: sum(x[k] for x in g)
    out.append(f"| {d['property']} | {d['wall_s']:.0f} | {s('cases')} | {s('states')} | {s('transitions')} | " + ", ".join(f"{x['group']} ({x['cases']})" for x in g) + " |")
seeds = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
caught = {}
for l in open(os.path.join(here, "tools/catches.txt")):
    l = l.split()
    if len(l) >= 3: caught.setdefault(l[0], {})[l[1]] = l[2]
sd = os.path.join(here, "seeded")
ids = sorted(os.listdir(sd)) if os.path.isdir(sd) else []
fmt = lambda n: ", ".join(c + ("" if r == "rc=1" else " (no)") for c, r in sorted(caught.get(n, {}).items())) or "not run"
for n in ids:
    m = json.load(open(os.path.join(sd, n, "meta.json")))
    seeds.append(f"| {n} | {m['property']} | {m['needs']} | {fmt(n)} |")
mut = []
for n in sorted(caught):
    if n not in ids: mut.append(f"`{n}`: {fmt(n)}")
t = open(os.path.join(here, "DESIGN.md")).read()
def put(name, body):
    global t
    t = re.sub(rf"(<!-- {name} -->\n).*?(<!-- /{name} -->)", lambda m: m[1] + body + "\n" + m[2], t, flags=re.S)
put("coverage", "\n".join(out)); put("seeds", "\n".join(seeds)); put("mutants", "; ".join(mut))
open(os.path.join(here, "DESIGN.md"), "w").write(t)
