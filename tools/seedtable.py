#!/usr/bin/env python3
"""Regenerate the seeded table at the end of DESIGN.md (documentation only)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for line in open(os.path.join(here, "tools", "caught.txt")):
    if line.strip():
        k, v = line.split(None, 1)
        caught[k] = v.strip()
rows = []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s: %s | %s | %s |" % (d, m["what_it_breaks"].split(". ")[0][:160].replace("|", "/"), m["property"], caught.get(d, "not yet")))
p = os.path.join(here, "DESIGN.md")
t = open(p).read()
head = t[:t.index("| change | property |")]
open(p, "w").write(head + "| change | property | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n")
