#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in checks/."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
TECH = "TLA+ specification: TLC exhaustive model, model transitions and random histories replayed into the real code, recorded traces judged by TLC"
NOTE = json.load(open(os.path.join(R, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(R, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "model_checking",
                       "level_note": NOTE.get(i, "exhaustive within the constants of the model; conformance on every emitted transition plus seeded random histories")})
    else:
        na.append({"property": i, "reason": NOTE.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+/TLC. check.py <id> quick|thorough builds harness/ from /repo's working tree, runs TLC, replays and judges. DESIGN.md describes each check; known_findings.txt lists findings."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
