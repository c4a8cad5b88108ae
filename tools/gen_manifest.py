#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from the lists below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "abstract interpretation over go/ssa (symbolic values, linear inequalities, heap) with modular contracts"
NOTE = ("Decides the stated rules on every path of the analysed functions of the current source; loops by inductive summaries, no bound on inputs. "
        "Trusts the Go type checker and SSA builder, the checker itself and its models of the standard library. What the analysis can't decide is listed as "
        "undecided in the evidence and raises no alarm. ")
CLAIMED = json.load(open(os.path.join(here, "tools", "claims.json")))
NA = json.load(open(os.path.join(here, "tools", "declined.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": "sh /verif/check.sh " + i, "thorough_cmd": "sh /verif/check.sh " + i,
                       "technique": c.get("technique", T), "level": "other", "level_note": NOTE + c.get("note", "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "sh /verif/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks are needed in /repo: the checks analyse its source."}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
