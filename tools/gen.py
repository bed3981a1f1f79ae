#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + "/tools", H + "/harness"]
from props import PROPS
from registry import CHECKS
with open(H + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in CHECKS and p["technique"]:
        checks.append(dict(property=p["id"], quick_cmd="VERIF_TIER=quick bin/check " + p["id"],
                           thorough_cmd="VERIF_TIER=thorough bin/check " + p["id"],
                           technique=p["technique"], level="model_checking", level_note=p["note"],
                           evidence_file="evidence/%s.json" % p["id"]))
    else:
        na.append(dict(property=p["id"], reason=p["na"] or "check under construction"))
m = dict(version=1, setup_cmd="bash bin/setup", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hooks are needed: every check drives the public interface", source_commits=[]),
         notes="TLA+ specifications in specs/, conformance drivers in harness/; see DESIGN.md")
with open(H + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
