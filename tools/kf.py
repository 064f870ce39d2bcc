#!/usr/bin/env python3
"""Rewrites the fixed: lines of known-findings.txt from /repo's fix: commits (never run by a check)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = json.load(open(os.path.join(V, "tools/fixmap.json")))
F = os.path.join(V, "known-findings.txt")
out = ["# known: entries suppress exactly the violation keys they match; fixed: entries suppress nothing. See DESIGN.md."]
out += [l.rstrip() for l in (open(F) if os.path.exists(F) else []) if l.startswith("known:")]
miss = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        if h not in M:
            miss.append(l)
            continue
        out.append("fixed: property=%s %s %s" % (M[h], h, s[5:]))
open(F, "w").write("\n".join(out) + "\n")
if miss:
    print("no property for:", *miss, sep="\n")
