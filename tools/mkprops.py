#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for titles, statements, anchors)."""
import json, os
P = []
S = "trick_source/sim_services/"
def p(id, title, st, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": s[0], "meaning": s[1], "where": s[2]} for s in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": st,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
exec(open(os.path.join(os.path.dirname(__file__), "props.py")).read())
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
