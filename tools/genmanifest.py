#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check (harness/checks/cNN_test.go)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {  # property -> (deciding method, what is not covered)
}
exec(open(os.path.join(V, "tools", "technique.py")).read())
NOT = globals().get("NOT", {})
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "harness", "checks", p.lower() + "_test.go")) and p not in NOT:
        tech, note = TECH[p]
        checks.append({"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
                       "technique": "property-based testing: " + tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": p, "reason": NOT.get(p, "its generator is not written yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
