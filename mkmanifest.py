#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the harness files present and the notes in this file."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
}
TECH = json.load(open(HERE + "/technique.json"))
checks, na = [], []
for line in open(HERE + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    parts = [f for f in glob.glob(HERE + "/harness/" + i + "*.*") if re.match(i + r"(_\w+)?\.(cc|py)$", os.path.basename(f))]
    if parts and i not in NA:
        t = TECH.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
            "technique": t.get("technique", "runtime monitoring under ASan+UBSan with a model oracle"),
            "level": "exploration",
            "level_note": t.get("note", "Decided on the executions explored; see evidence for what they were."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built yet")})
json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check rebuilds its monitors from /repo's working tree into /verif/build and removes them again. No hooks are compiled into /repo.",
}, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
