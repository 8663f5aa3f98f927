#!/usr/bin/env python3
"""development helper: mkbug.py ID PROPERTY 'needs' 'what it breaks' FILE<<<'OLD\n====\nNEW' [more FILE pairs separated by lines of #### file]
Writes seeded/ID/patch.diff and meta.json against /repo's HEAD."""
import sys, os, json, difflib, subprocess
bid, prop, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + bid
os.makedirs(d, exist_ok=True)
txt = sys.stdin.read()
edits = {}
for part in txt.split("#### ")[1:]:
    fn, body = part.split("\n", 1)
    old, new = body.split("\n====\n")
    new = new.rstrip("\n")
    cur = edits.get(fn) or subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + fn], text=True)
    assert cur.count(old) == 1, (fn, cur.count(old), old)
    edits[fn] = cur.replace(old, new)
out = ""
for fn, new in edits.items():
    old = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + fn], text=True)
    out += "".join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + fn, "b/" + fn))
open(d + "/patch.diff", "w").write(out)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
if not os.path.exists(d + "/demo.sh"):
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# builds the demonstration against the library in /repo and runs it in a scratch directory
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w -fwrapv -Iinclude -Iinclude/api -Iinclude/internal -Ilib/src/private "$H/demo.cc" _build/up/bin/libmli.a -o "$T/demo" || exit 3
cd "$T" && ./demo
''')
