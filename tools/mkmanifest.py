#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, CLAIMED and REASONS."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(os.path.join(root, "tools/claims.json")))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    c = claims.get(i)
    if c and "level_note" in c:
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh %s quick" % i,
            "thorough_cmd": "./check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "contract-based deductive verification: WP over the SSA of /repo, obligations discharged by z3"),
            "level": "proof",
            "level_note": c["level_note"],
        })
    else:
        na.append({"property": i, "reason": (c or {}).get("reason", "not yet under contract")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "the checks need no hooks in /repo: contracts live in /verif/contracts and are bound to the functions of /repo by name on every run", "source_commits": []},
     "notes": "See DESIGN.md. Every check re-extracts the functions of /repo from source (go/ssa) on every run and re-proves every obligation."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")
