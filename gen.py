#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (the one place where properties are described)."""
import json, os, importlib, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import props
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=[{"crash points": "crash_points", "faults": "fault_sequences"}.get(o, o) for o in p["over"]], text=p["forall"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
checks, na = [], []
for p in props.PROPS:
    if p.get("na"):
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="python3 check.py %s --thorough" % p["id"],
                       technique=p["technique"], level="other", level_note=p["level_note"]))
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na, notes=props.NOTES),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
