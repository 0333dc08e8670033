#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import props
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in props.PROPS:
    i = p["id"]
    if i in props.BUILT:
        checks.append({"property": i, "quick_cmd": f"bin/check.sh {i} quick", "thorough_cmd": f"bin/check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": "bounded model checking by " + p["note"].split(";")[0],
            "level": "model_checking",
            "level_note": "Holds for every behaviour within the bounds given in the evidence file: " + p["note"] + ". Trusts the reference model, the Go compiler and the harness; nothing is claimed outside of the bounds."})
    else:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "no check has been built yet")})
m = {"version": 1, "setup_cmd": "bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Harness files are compiled into virtual packages of the repository's module with go build -overlay; /repo is never written."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
