#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below.
CLAIMED lists the properties that have a check."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

exec(open(os.path.join(os.path.dirname(__file__), "props.py")).read())

TECH = "contract-based deductive verification of the real Go code (SSA verification conditions, z3/cvc5), failing obligations replayed on the real code"
checks, na = [], []
for p in P:
    if p["id"] in NOTES:
        checks.append({"property": p["id"], "quick_cmd": "bash run.sh %s quick" % p["id"], "thorough_cmd": "bash run.sh %s thorough" % p["id"],
                       "technique": TECH, "level": "proof", "level_note": NOTES[p["id"]]})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
with open(root + "/MANIFEST.json", "w") as f:
    f.write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
print(len(checks), "claimed,", len(na), "not applicable")
