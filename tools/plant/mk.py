#!/usr/bin/env python3
"""mk.py ID PROPERTY KIND FILE <<spec: edits separated by lines '=====' (old) '-----' (new); then '#### needs', '#### breaks', '#### demo'.
FILE edits may start with '@@ path' to switch file. KIND: dm | dmm | <dir with Cargo.toml.in>"""
import sys, os, subprocess, json, difflib
ID, PROP, KIND = sys.argv[1:4]
spec = sys.stdin.read()
D = f"/verif/seeded/{ID}"; P = "/verif/tools/plant"
os.makedirs(D, exist_ok=True)
parts = {}
cur = 'edits'; parts[cur] = []
for line in spec.splitlines(True):
    if line.startswith('#### '):
        cur = line[5:].strip(); parts[cur] = []
    else: parts[cur].append(line)
parts = {k: ''.join(v) for k, v in parts.items()}
files = {}
for chunk in parts['edits'].split('@@ ')[1:]:
    path, body = chunk.split('\n', 1); path = path.strip()
    src = files.get(path) or open(f"/repo/{path}").read(); files[path] = src
    for edit in body.split('=====\n')[1:]:
        old, new = edit.split('-----\n')
        n = src.count(old)
        if n != 1: sys.exit(f"{path}: old text occurs {n} times:\n{old}")
        src = src.replace(old, new)
    files[path] = src
with open(f"{D}/patch.diff", 'w') as out:
    for path, new in files.items():
        old = open(f"/repo/{path}").read()
        out.write(''.join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), f"a/{path}", f"b/{path}")))
json.dump({"property": PROP, "needs": parts['needs'].strip(), "what_it_breaks": parts['breaks'].strip()}, open(f"{D}/meta.json", 'w'), indent=1)
import shutil
shutil.copy(f"{P}/demo.sh", f"{D}/demo.sh")
if os.path.isdir(f"{P}/{KIND}"): shutil.copytree(f"{P}/{KIND}", D, dirs_exist_ok=True)

if 'demo' in parts: open(f"{D}/main.rs", 'w').write(parts['demo'])
subprocess.run(['git', '-C', '/repo', 'apply', '--check', f"{D}/patch.diff"], check=True)
