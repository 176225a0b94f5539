#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        anchors = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]}
        if p["state"]:
            anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        if p["observe"]:
            anchors["observe_at"] = list(p["observe"])
        anchors["hook_needed"] = p["hook"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
na = getattr(props, "NOT_APPLICABLE", [])
naids = {x["property"] for x in na}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 tools/check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 tools/check.py %s thorough" % p["id"],
                 "technique": p["tech"], "level": p["level"], "level_note": p["note"]} for p in props.PROPS
                if p["id"] not in naids],
     "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
