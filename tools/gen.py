#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (PROPS) and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
from tools.props import PROPS, NOTES, NOT_APPLICABLE

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                              observe_at=p["observe"], hook_needed=None))
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in CHECKS:
        checks.append(dict(property=p["id"], quick_cmd="./check.py %s quick" % p["id"], thorough_cmd="./check.py %s thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=p["technique"],
                           level=CHECKS[p["id"]].get("level", "model_checking"), level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "check not built yet")))
m = dict(version=1, setup_cmd="./check.py --setup", checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
