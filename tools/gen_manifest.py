#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of check binaries."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = {
    "C29": "property-based testing of lists of operations in several orders and threads against a reference model",
    "C07": "stateful property-based testing against a reference model",
    "C23": "generated programs judged by the compiler against a typing oracle",
    "C15": "property-based testing against a reference model and fuzzing of shapes",
}
NOTE = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if any(os.path.exists(os.path.join(root, "harness/%s/src/bin/%s.rs" % (c, i.lower()))) for c in ("checks", "progs")):
        checks.append(dict(property=i, quick_cmd="bash check.sh %s" % i, thorough_cmd="bash check.sh %s" % i,
            evidence_file="evidence/%s.json" % i,
            technique=TECH.get(i, "property-based testing against a reference model"),
            level="exploration",
            level_note=NOTE.get(i, "Holds on every generated case of the run (counts and distribution in the evidence file); trusts the reference model in harness/vcore and the generators. Not a proof for cases that were not generated.")))
    else:
        na.append(dict(property=i, reason="the check is not built yet"))
m = dict(version=1, setup_cmd="bash check.sh --setup", checks=checks, not_applicable=na,
    notes="check.sh builds harness/checks against /repo's working tree and runs one binary per property. A replay file is run again with: bash check.sh <ID> --replay <file>.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not built")
