#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.in.md, the scope decisions, the repairs and the planted bugs."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(HERE, "tools", "DESIGN.in.md")).read()
known = json.load(open(os.path.join(HERE, "known_findings.json")))
fixed = "\n".join("- " + x.replace("fixed: property=", "", 1) for x in known["fixed"])
rows = ["| bug | caught by | needs |", "|---|---|---|"]
base = os.path.join(HERE, "seeded")
for d in sorted(os.listdir(base)):
    m = json.load(open(os.path.join(base, d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/")))
scope = open(os.path.join(HERE, "tools", "SCOPE.md")).read().strip()
s = s.replace("@SCOPE@", scope).replace("@FIXED@", fixed).replace("@SEEDED@", "\n".join(rows))
open(os.path.join(HERE, "DESIGN.md"), "w").write(s)
