#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXH = "bounded exhaustive enumeration of executions of the real code (explicit-state exploration of the input space) against an exact reference"
NOTE = "Complete within the alphabets and bounds listed in DESIGN.md and in the evidence; trusts GMP/MPFR as reference arithmetic and the harness oracle; says nothing outside the bounds."
claims = json.load(open(os.path.join(ROOT, "tools/claims.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    c = claims.get(i)
    if c is None or "na" in c:
        na.append({"property": i, "reason": (c or {}).get("na", "check not built yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./run.sh %s quick" % i,
        "thorough_cmd": "./run.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c.get("technique", EXH),
        "level": c.get("level", "exploration"),
        "level_note": c.get("note", NOTE),
    })
m = {"version": 1, "setup_cmd": "./run.sh --build", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: the checks use only the public API", "source_commits": []},
     "notes": "Every check rebuilds /verif/mc against /repo's working tree. Known findings and fixes: known_findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
