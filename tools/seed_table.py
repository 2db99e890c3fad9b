#!/usr/bin/env python3
"""writes the table of planted changes into DESIGN.md"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tab = json.load(open(os.path.join(V, "tools/seeds/table.json")))
rows = ["| change | breaks | needs | caught by |", "|---|---|---|---|"]
for k in sorted(tab):
    if not os.path.isdir(os.path.join(V, "seeded", k)):
        continue
    e = tab[k]
    rows.append("| %s | %s | %s | %s |" % (k, e["breaks"], e["needs"],
                                            ", ".join(e["caught"]) or "(none)"))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
a, rest = t.split("<!-- table -->")
b = rest.split("<!-- end -->")[1]
open(p, "w").write(a + "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->" + b)
print(len(rows) - 2, "changes")
