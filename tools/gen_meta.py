#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py (one source, kept in step)."""

import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import meta  # noqa: E402

ROOT = os.path.dirname(HERE)

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in meta.PROPERTIES:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(d) + "\n")

checks, na = [], []
for p in meta.PROPERTIES:
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} --tier quick",
            "thorough_cmd": f"./check {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p.get("technique", "deterministic simulation with fault injection (seeded search)"),
            "level": p.get("level", "exploration"),
            "level_note": p["level_note"],
        }
    )
man = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": checks,
    "not_applicable": na,
    "hooks": meta.HOOKS,
    "notes": meta.NOTES,
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
