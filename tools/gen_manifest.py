#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and properties.map."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
have = {}
for l in open(os.path.join(root, "properties.map")):
    f = l.split()
    if f: have[f[0]] = f[1:]
notes = {}
np = os.path.join(root, "tools", "level_notes.json")
if os.path.exists(np): notes = json.load(open(np))
na = {}
ap = os.path.join(root, "tools", "not_applicable.json")
if os.path.exists(ap): na = json.load(open(ap))
checks, notapp = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in have:
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            technique=n.get("technique", "property-based testing: random structured generation against an executable reference model, with shrinking"),
            level="exploration",
            level_note=n.get("note", "Holds on every generated case of the run; says nothing about inputs outside the generators described in DESIGN.md. Trusts the reference model in the harness.")))
    else:
        notapp.append(dict(property=i, reason=na.get(i, "check not built yet")))
m = dict(version=1,
    setup_cmd="./setup.sh",
    hooks=dict(guard="none", enable="no hooks are needed: the harness uses the public interfaces of the crates and the built command-line tools", source_commits=[]),
    checks=checks, not_applicable=notapp)
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(notapp), "not claimed")
