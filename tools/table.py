#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from build/plant.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(here, "build", "plant.json")))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", i, "meta.json")))
    c = res.get(i, {}).get("checks", {})
    by = [p for p in c if c[p].startswith("caught")]
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {', '.join(by) or '**missed**'} |")
p = os.path.join(here, "DESIGN.md")
t = open(p).read().split("<!-- table -->")[0]
open(p, "w").write(t + "<!-- table -->\n" + "\n".join(rows) + "\n")
