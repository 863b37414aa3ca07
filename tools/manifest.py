#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed checks and not_applicable properties."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "abstract interpretation of the compiled MIR (linear-constraint domain, log-structured memory, partitioned traces; obligations discharged by the domain)"
B = "Decided for the abstract contexts listed in DESIGN.md (operand shapes bounded where stated, values of digits, scales and integers abstract); obligations the domain cannot settle are counted as undecided and raise no alarm."
A = "Decided for every operand: the contexts cover all stored forms without bounding digits, scales or weights."
CLAIMED = json.load(open(os.path.join(HERE, "tools", "claimed.json")))
NA = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in CLAIMED:
        c = CLAIMED[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "bash bin/check.sh %s quick" % i,
            "thorough_cmd": "bash bin/check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", T),
            "level": "other",
            "level_note": c.get("note") or (A if c.get("all") else B),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
