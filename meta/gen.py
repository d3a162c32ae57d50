#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from meta/props.py (only properties that have a check)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin"); sys.path.insert(0, V + "/meta")
from checks import CHECKS
from props import P, NA
out, checks, na = [], [], []
for p in P:
    d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["forall"]), why_tests_cant=p["why"],
             anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], state=p.get("state", []), observe_at=p["observe"], hook_needed=None))
    assert len(p["title"]) <= 80, p["id"]
    if p["id"] in NA: out.append(d); na.append(dict(property=p["id"], reason=NA[p["id"]])); continue
    if p["id"] not in CHECKS: print("no check yet:", p["id"]); continue
    out.append(d)
    checks.append(dict(property=p["id"], quick_cmd="bin/check %s quick" % p["id"], thorough_cmd="bin/check %s thorough" % p["id"], technique=p["tech"], level="model_checking", level_note=p["note"]))
for c in CHECKS: assert any(p["id"] == c for p in P), c
open(V + "/properties.jsonl", "w").write("".join(json.dumps(d) + "\n" for d in out))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na, notes="Every check is an exhaustive enumeration (schedules, call histories, words over small alphabets, configurations) run on the real code compiled from /repo; see DESIGN.md."), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
