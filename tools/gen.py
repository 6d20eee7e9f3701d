#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py (only properties
that have a check are claimed)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P  # noqa: E402

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = {f[:3].upper() for f in os.listdir(V + "/checks") if f.startswith("c")}
for q in P:
    for f in q["files"]:
        assert os.path.exists("/repo/" + f), f
    assert len(q["title"]) <= 80, q["title"]
    n = q["statement"].count(". ") + 1
    assert n <= 3, (q["id"], n)
P = [q for q in P if q["id"] in have]
assert {q["id"] for q in P} == have
with open(V + "/properties.jsonl", "w") as f:
    for q in P:
        json.dump(
            {
                "id": q["id"],
                "title": q["title"],
                "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["qtext"]},
                "why_tests_cant": q["why"],
                "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]},
            },
            f,
        )
        f.write("\n")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(
        {
            "version": 1,
            "setup_cmd": "true",
            "checks": [
                {
                    "property": q["id"],
                    "level": "model_checking",
                    "level_note": q["note"],
                    "technique": "model checking: " + q["technique"],
                    "quick_cmd": "/opt/venv/bin/python /verif/run.py " + q["id"],
                    "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python /verif/run.py " + q["id"],
                }
                for q in P
            ],
            "not_applicable": [],
        },
        f,
        indent=1,
    )
    f.write("\n")
