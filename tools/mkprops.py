#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that long lines stay readable)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": mech}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
exec(open(__file__.replace("mkprops.py", "props.in.py")).read())
with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
