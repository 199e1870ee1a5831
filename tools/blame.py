#!/usr/bin/env python3
"""which lines of each planted change are the original repository's"""
import subprocess, re, sys, glob, os
def blame(f):
    o = subprocess.run(["git","-C","/repo","blame","-s","-l",f], capture_output=True, text=True).stdout.splitlines()
    return [l.startswith("^") for l in o]
B = {}
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f = None; ok = bad = 0
    for l in open(p):
        if l.startswith("--- a/"): f = l[6:].strip(); B.setdefault(f, blame(f))
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m[1]) - 1; continue
        if l.startswith("---") or l.startswith("+++") or f is None: continue
        if l.startswith("-"):
            if B[f][n]: ok += 1
            else: bad += 1
            n += 1
        elif l.startswith(" "): n += 1
    print(os.path.basename(os.path.dirname(p)), "original lines", ok, "own lines", bad, "" if ok and not bad else "<<<<")
