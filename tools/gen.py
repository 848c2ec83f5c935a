#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from props import PROPS, NA
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=["inputs"], text=p["over"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="true",
         checks=[dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
                      evidence_file=f"evidence/{p['id']}.json",
                      technique=p.get("technique", "symbolic (concolic) execution of the real Python functions with z3 deciding every obligation on every path; counterexamples replayed on the untransformed code"),
                      level="model_checking", level_note=p["note"]) for p in PROPS],
         not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA],
         notes="No hooks in /repo: the checks load /repo's current source through an import hook that makes comparisons, truth tests and divisions on symbolic values visible to the engine.")
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(H, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
except ImportError:
    pass
