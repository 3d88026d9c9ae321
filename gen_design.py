#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
rows = ["| id | property | what it needs | caught |", "|---|---|---|---|"]
caught = json.load(open("/verif/caught.json"))
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f)); d = json.load(open(f))
    rows.append(f"| {i} | {d['property']} | {d['needs'].replace('|', '/')} | {caught.get(i, '?')} |")
s = open("/verif/DESIGN.md").read()
s = re.sub(r"<!-- seeds -->.*<!-- end -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end -->", s, flags=re.S)
open("/verif/DESIGN.md", "w").write(s)
