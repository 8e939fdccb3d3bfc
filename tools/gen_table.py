#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | needs | breaks | caught by |", "|---|---|---|---|"]
also = {}
f = V + "/tools/also_caught.json"
if os.path.exists(f): also = json.load(open(f))
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(p)); i = p.split("/")[-2]
    e = lambda t: t.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (i, e(d["needs"]), e(d["what_it_breaks"]), ", ".join(also.get(i, [d["property"]]))))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"<!-- table -->.*<!-- /table -->", lambda m: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
print(len(rows) - 2, "bugs")
