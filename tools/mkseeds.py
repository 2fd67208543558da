#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded*/*/meta.json."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| id | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded*", "*", "meta.json")), key=lambda p: p.split("/")[-2]):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (d.split("/")[-2], m["property"], m["needs"], m["what_it_breaks"]))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
