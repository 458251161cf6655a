#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, state=None, observe=None, na=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a, _t=technique, _n=note))
    if na: NA[id] = na
for f in sorted(glob.glob(os.path.join(here, "tools", "props_*.py"))):
    exec(compile(open(f).read(), f, "exec"))
P.sort(key=lambda p: p["id"])
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
checks = []
for p in P:
    if p["id"] in NA: continue
    checks.append({"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": p["_t"], "level": "other", "level_note": p["_n"]})
m = {"version": 1, "setup_cmd": "./run.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "One analyser (checker/), one command per property; it type-checks and lowers /repo's current workspace to SSA on every run. No hooks in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(here, "properties.jsonl")): jsonschema.validate(json.loads(l), sch)
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(P), "properties,", len(checks), "claimed")
