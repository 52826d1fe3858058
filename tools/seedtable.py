#!/usr/bin/env python3
"""Rewrite the table of seeded changes in DESIGN.md (between the two markers)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {"c17-prodshare": "C19, C13", "c21-order": "C20", "c19-cap": "C13"}
rows = ["| change | what it breaks | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    c = m["property"] + (", " + ALSO[i] if i in ALSO else "")
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), c))
s = open(V + "/DESIGN.md").read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
