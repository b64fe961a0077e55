#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from propcfg import CFG, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CFG:
        c = CFG[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py " + i, evidence_file="evidence/%s.json" % i,
                           technique=c.get("technique", "contract-based deductive verification of the Go source (gover: go/ssa VC generation, z3/cvc5), with contract replay on the real code"),
                           level=c["level"], level_note=c.get("note", "")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: contracts live in /verif/contracts keyed by function, harnesses enter through go build overlays.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
