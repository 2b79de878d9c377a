#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        proved = c["level"] == "proof"
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py check {i}",
            "thorough_cmd": f"python3 run.py check {i} --tier thorough",
            "technique": "contract-based deductive verification (Verus) of functions extracted from /repo on every run"
                         + ("; a bounded harness on the real code searches for the failing input" if proved else
                            "; the parts outside the verifier's reach are decided by a bounded harness on the real code (labelled bounded)"),
            "level": c["level"],
            "level_note": c["note"] if "note" in c else ("Proof units: " + ", ".join(c["units"]) + ". Unchecked assumptions: " + "; ".join(c["assumptions"])
                          + ". Bounded part (never counted as proved): " + c["bound"] + "."),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no contract has been brought to this property yet")})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks work on a mechanical copy of the source (see DESIGN.md)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
