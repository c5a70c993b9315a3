#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and of the checks that exist."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
from props import CLAIMS, NOT_YET  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append(
            dict(
                property=i,
                quick_cmd=f"python3 checks/run.py {i} quick",
                thorough_cmd=f"python3 checks/run.py {i} thorough",
                evidence_file=f"evidence/{i}.json",
                technique=tech,
                level="model_checking",
                level_note=note,
            )
        )
    else:
        na.append(dict(property=i, reason=NOT_YET.get(i, "no check yet")))
json.dump(
    dict(version=1, setup_cmd="python3 checks/setup.py", checks=checks, not_applicable=na),
    open(os.path.join(ROOT, "MANIFEST.json"), "w"),
    indent=1,
)
