#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md, the property texts, the rules in the last evidence of tools/chk, and the seeds."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(here, "tools", "design")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
man = json.load(open(os.path.join(here, "MANIFEST.json")))
chk = {c["property"]: c for c in man["checks"]}
na = {n["property"]: n["reason"] for n in man["not_applicable"]}
known, fixed = {}, {}
for l in open(os.path.join(here, "known_findings.txt")):
    m = re.match(r"known: property=(\S+) .*? :: (.*)", l)
    if m: known.setdefault(m[1], []).append(m[2])
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fixed.setdefault(m[1], []).append((m[2], m[3]))
seeds = {}
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    j = json.load(open(d)); j["id"] = os.path.basename(os.path.dirname(d)); seeds.setdefault(j["property"], []).append(j)
o = [open(os.path.join(D, "00.md")).read(), "## Properties\n"]
for p in props:
    i = p["id"]
    o.append(f"### {i}. {p['title']}\n\n{p['statement']}\n")
    if i in na:
        o.append(f"Not applicable: {na[i]}\n"); continue
    o.append(f"*Scope:* {p['quantifier']['text']}. *Why tests cannot:* {p['why_tests_cant']}\n")
    o.append(f"*Method:* {chk[i]['technique']}. {chk[i].get('level_note') or ''}\n")
    f = os.path.join(D, i + ".md")
    if os.path.exists(f): o.append(open(f).read())
    e = f"/tmp/vv/evidence/{i}.json"
    if os.path.exists(e):
        v = json.load(open(e))
        c = v["coverage"]
        o.append("Rules (instances on the current tree):\n")
        for r, t in sorted(c["rules"].items()):
            o.append(f"- `{r}` ({c['counts'].get('instances of ' + r, '-')}): {t}")
        o.append("")
    if i in fixed: o.append("Defects repaired: " + "; ".join(f"{t} ({h})" for h, t in fixed[i]) + ".\n")
    if i in known: o.append("Known findings: " + "; ".join(known[i]) + ".\n")
    if i in seeds: o.append("Planted bugs caught: " + "; ".join(f"`{s['id']}` ({s['needs']})" for s in seeds[i]) + ".\n")
o.append(open(os.path.join(D, "99.md")).read())
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(o))
