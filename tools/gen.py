#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after an edit)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA


def main():
    ids = set()
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS + NA:
            assert p["id"] not in ids, p["id"]
            ids.add(p["id"])
            assert len(p["title"]) <= 80, p["id"]
            rec = {
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [
                    {"name": n, "where": w} for n, w in p["mech"]]},
            }
            f.write(json.dumps(rec) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 check.py " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
            "technique": p["technique"],
            "level": "other",
            "level_note": p["note"],
        } for p in PROPS],
        "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
        "notes": "No hooks in /repo are needed: a rustc driver reads the type-checked program of /repo's working tree on every run.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
