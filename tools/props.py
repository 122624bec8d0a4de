#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after edits)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = "other"
P = []          # claimed
NA = []         # not applicable


def prop(id, title, statement, over, quantifier, tests, files, mech, observe, technique, note,
         state=()):
    P.append(dict(
        p={"id": id, "title": title, "statement": statement,
           "quantifier": {"over": over, "text": quantifier}, "why_tests_cant": tests,
           "anchors": {"files": files,
                       "mechanism": [{"name": n, "where": w} for n, w in mech],
                       "state": list(state), "observe_at": observe, "hook_needed": False}},
        technique=technique, note=note))


def na(id, title, statement, over, quantifier, tests, files, mech, observe, reason):
    prop(id, title, statement, over, quantifier, tests, files, mech, observe, None, None)
    P[-1]["reason"] = reason


exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x["p"], ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "cd /verif/analyzer && PYTHONDONTWRITEBYTECODE=1 python3 -m pa.facts",
    "checks": [
        {"property": x["p"]["id"], "quick_cmd": "/verif/check %s --tier quick" % x["p"]["id"],
         "thorough_cmd": "/verif/check %s --tier thorough" % x["p"]["id"],
         "technique": x["technique"], "level": LEVEL, "level_note": x["note"]}
        for x in P if x["technique"]],
    "not_applicable": [{"property": x["p"]["id"], "reason": x["reason"]}
                       for x in P if not x["technique"]],
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")
