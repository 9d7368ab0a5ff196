#!/usr/bin/env python3
"""Lists the planted bugs that change lines which this project's own commits added to /repo."""
import os, re, subprocess, sys
BASE = "554aa03"
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../seeded")
cache = {}
def blame(f):
    if f not in cache:
        o = subprocess.run(["git", "-C", "/repo", "blame", "-s", f"{BASE}..HEAD", "--", f], capture_output=True, text=True).stdout
        cache[f] = [None] + [l.startswith("^") for l in o.splitlines()]
    return cache[f]
for b in sorted(os.listdir(root)):
    f, n, ours, orig = None, 0, 0, 0
    for l in open(os.path.join(root, b, "patch.diff")):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("+++") or l.startswith("diff") or l.startswith("index"): pass
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            if blame(f)[n]: orig += 1
            else: ours += 1
            n += 1
        elif l.startswith(" "): n += 1
    if ours or not orig: print(b, "ours", ours, "original", orig)
