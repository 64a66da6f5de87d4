#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from rules/props.py and the property list."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path[:0] = [os.path.join(V, "engine"), os.path.join(V, "rules")]
import props
T = props.tasks()
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "technique": props.TECHNIQUE.get(i, props.TECHNIQUE["*"]), "level": "other", "level_note": props.NOTE.get(i, props.NOTE["*"])})
    else:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
