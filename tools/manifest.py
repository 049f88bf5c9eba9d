#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (run after adding a check)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE  # noqa: E402

props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 run.py " + p,
        "thorough_cmd": "env VERIF_TIER=thorough python3 run.py " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["note"],
    })
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "No check yet.")} for p in props if p not in CHECKS]
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --build-only",
    "checks": checks,
    "not_applicable": na,
    "notes": "Deterministic simulation with fault injection; see DESIGN.md. No hooks in /repo were needed: the "
             "simulator's seams are compiler instrumentation, the linker (--wrap, operator new/delete) and the "
             "callbacks, visitors and buffers the library already takes. /repo carries fix: commits only.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
