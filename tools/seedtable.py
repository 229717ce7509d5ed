#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = root + "/DESIGN.md"
s = open(p).read()
head = s[:s.index("<!-- seeds -->")]
rows = ["<!-- seeds -->", "| bug | property | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
open(p, "w").write(head + "\n".join(rows) + "\n")
