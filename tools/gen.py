#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (a property
is claimed when props/<id>.py exists)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, level="proof", note="", na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, level=level, note=note, na=na, state=state))


exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": ["pyembroidery/" + x for x in p["files"]],
             "mechanism": [{"name": n, "where": "pyembroidery/" + w} for n, w in p["mech"]],
             "observe_at": p["observe"], "hook_needed": None}
        if p["state"]:
            a["state"] = p["state"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}, sort_keys=False) + "\n")
checks, na = [], []
for p in P:
    if p["na"] is None and os.path.exists(os.path.join(V, "props", p["id"].lower() + ".py")):
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 8)'",
     "checks": checks, "not_applicable": na,
     "notes": "All checks are static: they parse /repo/pyembroidery with the Python ast module and decide the property by "
              "abstract interpretation / dataflow over the source; no code of /repo is imported or executed."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties", len(checks), "claimed")
