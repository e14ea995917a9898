#!/usr/bin/env python3
"""Writes MANIFEST.json from gvc/props.py (claimed) and NA below."""
import json, os, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, here)
from gvc.props import PROPS, NA
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS: continue
    c = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i}",
        "thorough_cmd": f"./run.sh {i} --thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "contract-based deductive verification of /repo's Go SSA (gvc -> z3/cvc5), failed obligations replayed on the real code",
        "level": c.get("level", "proof"),
        "level_note": c.get("note") or ("Every obligation of the contracts in " + ", ".join("contracts/" + s for s in c["specs"]) +
            " is generated from the current source and discharged for all inputs. Assumes: " + " ".join(c.get("assumptions", [])) +
            " Trusted: go/ssa as the meaning of the source, the gvc VC generator, the library models listed in the evidence, z3/cvc5."),
    })
na = [{"property": i, "reason": NA.get(i, "Not built yet in this tree: the contracts for it are still to be written.")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "One driver (run.sh) per property; see DESIGN.md. known_findings.txt lists repaired and recorded defects."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
