#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.realpath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
claims, na = {}, {}
exec(open(os.path.join(root, "tools", "claims.py")).read())
checks = []
for p in props:
    i = p["id"]
    if i in claims:
        t, level, note = claims[i]
        checks.append(dict(property=i, quick_cmd="bin/check %s" % i, thorough_cmd="bin/check %s thorough" % i, technique=t, level=level, level_note=note))
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep", "under cfg(pen_verif)"], capture_output=True, text=True).stdout.split()
m = dict(version=1, setup_cmd="python3 bin/setup.py",
         hooks=dict(guard="cfg pen_verif", enable="RUSTFLAGS='--cfg pen_verif' (set by bin/vf.py for every harness build)", source_commits=hooks[::-1]),
         checks=checks,
         not_applicable=[dict(property=p["id"], reason=na.get(p["id"], "check not built yet")) for p in props if p["id"] not in claims])
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(m["not_applicable"]), "not")
