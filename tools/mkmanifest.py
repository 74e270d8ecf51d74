#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(V + "/tools/claims.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claims["claimed"]:
        c = claims["claimed"][i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "contract-based deductive verification (contracts on the real functions, go ssa to SMT, z3/cvc5), with a replay harness on the real code"),
            "level": c.get("level", "proof"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": claims["not_applicable"].get(i, "no check has been built for this property yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check builds engine/ (the verifier) and proves the contracts in contracts/ about the current source of /repo; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
