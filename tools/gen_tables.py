#!/usr/bin/env python3
"""Rewrites the two tables of DESIGN.md: costs (from evidence/) and planted defects (tools/caught.json)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
cost = ["| property | evaluations | distinct non-trivial | seconds |", "|---|---|---|---|"]
for n in range(1, 100):
    f = os.path.join(root, "evidence/C%02d.json" % n)
    if os.path.exists(f):
        e = json.load(open(f))
        assert e["tier"] == "quick" and not e["violations"], f
        cost.append("| C%02d | %d | %d | %.0f |" % (n, e["coverage"]["evaluations"], e["coverage"]["distinct_nontrivial"], e["wall_s"]))
caught = json.load(open(os.path.join(root, "tools/caught.json")))
bugs = ["| defect | needs | breaks | result |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", b, "meta.json")))
    bugs.append("| %s | %s | %s | %s |" % (b, m["needs"], m["what_it_breaks"], caught.get(b, "not tried")))
def put(s, tag, rows):
    body = "<!-- %s -->\n%s\n<!-- /%s -->" % (tag, "\n".join(rows), tag)
    if "<!-- %s -->" % tag in s:
        return re.sub("<!-- %s -->.*<!-- /%s -->" % (tag, tag), lambda _: body, s, flags=re.S)
    return s.replace(tag.upper() + "TABLE", body)
s = put(s, "cost", cost)
s = put(s, "bug", bugs)
open(p, "w").write(s)
