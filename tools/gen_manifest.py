#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties named in CLAIMED."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
CLAIMED = open(os.path.join(root, "tools", "claimed.txt")).read().split()
notes = json.load(open(os.path.join(root, "tools", "level_notes.json")))
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "One explorer per property, rebuilt from /repo on every run by run.sh; see DESIGN.md.",
}
for p in props:
    if p["id"] not in CLAIMED:
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": f"VERIF_TIER=quick bash run.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "model checking: exhaustive bounded exploration of the real code against an executable reference model",
        "level": "model_checking",
        "level_note": notes.get(p["id"], "Exhaustive within the bounds listed per family in the evidence; every model behaviour is replayed on the implementation."),
    })
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]))
