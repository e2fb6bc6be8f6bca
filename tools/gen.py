#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props_data.py and ocv/meta.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props_data import CHECKS, PROPS, TECH  # noqa: E402

from ocv.meta import META  # noqa: E402

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in CHECKS and i in META:
        t, note = CHECKS[i]
        cmd = f"python3 run_check.py {i}"
        checks.append(
            dict(property=i, quick_cmd=cmd, thorough_cmd=cmd, technique=TECH + t, level="exploration", level_note=note)
        )
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(
    version=1,
    setup_cmd="true",
    checks=checks,
    not_applicable=na,
    notes="All checks run /repo's real code in a scratch copy under random workloads while monitors decide; see DESIGN.md.",
)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
