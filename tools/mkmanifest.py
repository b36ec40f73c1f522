#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from claims import CLAIMS, NA
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd="bash tools/check.sh %s quick" % i, thorough_cmd="bash tools/check.sh %s thorough" % i,
                           technique=tech, level="other", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
doc = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
           notes="Static analysis of the MIR of /repo's current tree; see DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1, ensure_ascii=False)
    f.write("\n")
