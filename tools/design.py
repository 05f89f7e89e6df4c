"""Rewrites the table of planted bugs in DESIGN.md (markers: the lines '<!-- seeds -->')."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(os.path.join(V, "tools", "missed.txt")).read().split())
rows = ["| planted bug | needs | caught by |", "|----|----|----|"]
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    rows.append("| %s%s | %s | %s |" % (s, "*" if s in missed else "", m["needs"].replace("|", "/"), m.get("caught", m["property"])))
f = os.path.join(V, "DESIGN.md")
t = open(f).read()
block = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
t = t.replace("@@SEEDS@@", block) if "@@SEEDS@@" in t else re.sub(r"(?s)<!-- seeds -->.*<!-- /seeds -->", lambda m: block, t)
open(f, "w").write(t)
