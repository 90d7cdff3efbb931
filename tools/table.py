#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (all are caught by their property's check)."""
import json, os, re
V = "/verif/"
rows = []
for i in sorted(os.listdir(V + "seeded")):
    m = json.load(open(V + "seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s |" % (i, m["property"], m["what_it_breaks"]))
t = "<!-- table -->\n| change | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- end -->"
s = open(V + "DESIGN.md").read()
s = re.sub(r"SEEDED_TABLE|<!-- table -->.*<!-- end -->", lambda _: t, s, flags=re.S)
open(V + "DESIGN.md", "w").write(s)
