#!/usr/bin/env python3
"""Rewrite the "fixed" list of known_findings.json from /repo's fix commits and the properties they were found by."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = dict(l.split() for l in open(os.path.join(V, "tools", "fixes.txt")) if l.strip())
f = os.path.join(V, "known_findings.json")
k = json.load(open(f))
k["fixed"] = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep=^fix:"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if h not in P:
        sys.exit("no property for %s %s" % (h, s))
    k["fixed"].append("fixed: property=%s %s %s" % (P[h], h, s[5:]))
json.dump(k, open(f, "w"), indent=1)
print(len(k["fixed"]), "fixed")
