#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json. Run after editing."""
import json, os
P = []
NA = []

def prop(id, title, statement, over, quant, why, files, mech, technique, note, state=None, observe=None, thorough=False, na=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
               "why_tests_cant": why, "anchors": anchors}, technique, note, thorough, na))

here = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(here, "properties.py")).read())

root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p, *_ in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "./run.sh", "checks": [], "not_applicable": []}
for p, technique, note, thorough, na in P:
    if na:
        m["not_applicable"].append({"property": p["id"], "reason": na})
        continue
    c = {"property": p["id"], "quick_cmd": "./run.sh " + p["id"]}
    c["thorough_cmd"] = "./run.sh %s thorough" % p["id"]
    c.update({"technique": technique, "level": "other", "level_note": note})
    m["checks"].append(c)
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(m["checks"]), "checks")
