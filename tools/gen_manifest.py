#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH = "path-sensitive abstract interpretation of the SSA form, interprocedural over a token/nil/shape domain"
C = {}
def claim(p, technique, note):
    C[p] = (technique, note)
exec(open(os.path.join(D, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks = []
for i in ids:
    if i in C:
        t, n = C[i]
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": n})
na = [{"property": i, "reason": r} for i, r in NA.items()]
for i in ids:
    assert i in C or i in NA, i
m = {"version": 1, "setup_cmd": "cd sa && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o /dev/null .",
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
