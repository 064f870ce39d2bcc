#!/usr/bin/env python3
"""fixadd.py PROP: assigns PROP to all fix: commits without a property, newest run."""
import json, subprocess, sys
F='/verif/tools/fixmap.json'
M=json.load(open(F))
for l in subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines():
    h,s=l.split(" ",1)
    if s.startswith("fix:") and h not in M:
        M[h]=sys.argv[1]; print(h,sys.argv[1],s)
json.dump(M,open(F,'w'),indent=0)
