#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))
exec(open(os.path.join(os.path.dirname(__file__), "props.py")).read())
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
assert len({p["id"] for p in P}) == len(P)
for p in P: assert len(p["title"]) <= 80, p["title"]
open(out, "w").write("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
