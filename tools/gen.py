#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE  # noqa

TECH = "dynamic symbolic execution of the real Python code, path conditions and assertions decided by z3"
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p.get("observe", []), hook_needed=None))) + "\n")
na = dict(NOT_APPLICABLE)
man = dict(version=1, setup_cmd="bash /verif/tools/setup.sh", checks=[], not_applicable=[
    dict(property=k, reason=v) for k, v in na.items()],
    notes="No hooks: the checks load /repo/src from its working tree. known_findings.txt lists "
          "recorded findings and fixes. Replay a counterexample with ./check --replay FILE.")
for p in PROPS:
    if p["id"] in na:
        continue
    man["checks"].append(dict(
        property=p["id"], quick_cmd=f"./check {p['id']} quick",
        thorough_cmd=f"./check {p['id']} thorough", technique=p.get("technique", TECH),
        level="model_checking", level_note=p["note"]))
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
