#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it after editing: python3 tools/props.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CFG = json.load(open(os.path.join(ROOT, "checks.json")))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, tech=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])], hook_needed=None),
                  _tech=tech, _note=note))


exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

NA = []
na = os.path.join(ROOT, "tools", "props_na.py")
if os.path.exists(na):
    exec(open(na).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks = []
for p in P:
    if p["id"] in [n["property"] for n in NA]:
        continue
    c = CFG["checks"][p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                       technique=p["_tech"], level=c["level"], level_note=p["_note"]))
m = dict(version=1, setup_cmd="python3 check.py --build-only", checks=checks, not_applicable=NA,
         notes="No hooks in /repo: every source of nondeterminism already enters through the public API (samples, time stamps, parameters, allocator). "
               "replay a file with: python3 check.py --replay FILE")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks", len(NA), "not applicable")
