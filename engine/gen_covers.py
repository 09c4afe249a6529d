#!/usr/bin/env python3
"""Writes engine/covers.json: the situations each harness reached on the reference tree, from the evidence
files of a quick run. check.py lists as cover_points_missing whatever a later run no longer reaches."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob(os.path.join(V, "evidence", "C*.json"))):
    for k in json.load(open(f))["coverage"]["cover_points"]:
        h, c = k.split(":", 1)
        out.setdefault(h, [])
        if c not in out[h]: out[h].append(c)
json.dump({h: sorted(c) for h, c in sorted(out.items())}, open(os.path.join(V, "engine", "covers.json"), "w"), indent=1)
