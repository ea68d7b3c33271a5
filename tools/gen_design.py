#!/usr/bin/env python3
"""Rewrite the generated parts of DESIGN.md: defects (from known_findings.txt) and planted bugs (from seeded/)."""
import json, os, re
top = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
fixed, known = [], []
for l in open(os.path.join(top, "known_findings.txt")):
    l = l.rstrip("\n")
    if l.startswith("fixed: property="):
        fixed.append(l[len("fixed: property="):].split(" ", 2))
    elif l.startswith("known: property="):
        known.append(l[len("known: property="):])
d = f"{len(fixed)} entries:\n\n"
for p in sorted({f[0] for f in fixed}):
    d += f"* **{p}**: " + "; ".join(f"{t} ({h})" for q, h, t in fixed if q == p) + ".\n"
d += "\nNot repaired, as the repair would change a data structure's key or what another part relies on; listed as known findings:\n\n"
for k in known:
    d += "* " + k + "\n"
s = "| planted bug | needs | breaks | caught by |\n|---|---|---|---|\n"
for b in sorted(os.listdir(os.path.join(top, "seeded"))):
    m = json.load(open(os.path.join(top, "seeded", b, "meta.json")))
    s += f"| {b} | {m['needs']} | {m['what_it_breaks']} | {m['property']} |\n"
f = os.path.join(top, "DESIGN.md")
t = open(f).read()
for name, body in (("defects", d), ("planted", s)):
    t = re.sub(rf"<!-- {name} -->\n.*?<!-- end -->", lambda _: f"<!-- {name} -->\n{body}<!-- end -->", t, flags=re.S)
open(f, "w").write(t)
