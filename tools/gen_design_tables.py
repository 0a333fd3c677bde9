#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (findings, planted bugs) between their markers."""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))


def findings():
    rows = ["| id | property | commit | what failed |", "|---|---|---|---|"]
    for f in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]:
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f["entry"])
        rows.append(f"| {f['id']} | {m[1]} | fixed in {m[2]} | {m[3]} |" if m else f"| {f['id']} | {f['property']} | not repaired | {f['entry']} |")
    return "\n".join(rows)


def seeded():
    base = os.path.join(ROOT, "seeded")
    try:
        caught = json.load(open(os.path.join(base, "CAUGHT.json")))
    except FileNotFoundError:
        caught = {}
    rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    for d in sorted(os.listdir(base)):
        p = os.path.join(base, d, "meta.json")
        if os.path.exists(p):
            m = json.load(open(p))
            rows.append(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, m['property'])} |")
    return "\n".join(rows)


path = os.path.join(ROOT, "DESIGN.md")
text = open(path).read()
for name, fn in (("findings", findings), ("seeded", seeded)):
    text = re.sub(rf"(<!-- {name} -->\n).*?(<!-- /{name} -->)", lambda m: m[1] + fn().replace("\\", "") + "\n" + m[2], text, flags=re.S)
open(path, "w").write(text)
