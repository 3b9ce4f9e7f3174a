#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
from props import P
from claims import TECHNIQUE, NOTE, NOT_APPLICABLE
from sa.rule import RULES
import sa.rules.all

with open(ROOT + "/properties.jsonl", "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
ids = [q["id"] for q in P]
assert len(set(ids)) == len(ids)
assert not set(RULES) - set(ids), set(RULES) - set(ids)
checks, na = [], []
for i in ids:
    if i in RULES:
        t = TECHNIQUE.get(i, TECHNIQUE["*" + i[0]])
        c = {"property": i, "quick_cmd": "python3 check.py %s" % i,
             "thorough_cmd": "python3 check.py %s --tier thorough" % i,
             "technique": t, "level": "other", "level_note": NOTE.get(i, NOTE["*"])}
        if not os.path.exists(ROOT + "/sa/selftest.py"):
            del c["thorough_cmd"]
        checks.append(c)
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no static check for it has been built yet")})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py", "checks": checks, "not_applicable": na,
     "notes": "Static analysis of /repo's current sources; needs only the system's python3 (3.12). See DESIGN.md."}
with open(ROOT + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed;", [x["property"] for x in na], "not claimed")
