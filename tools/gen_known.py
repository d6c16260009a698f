#!/usr/bin/env python3
"""Appends a `fixed:` line to known_findings.txt for every fix commit of /repo that is not in it yet.
usage: gen_known.py MAP  where MAP has lines "<commit> <property>" """
import subprocess,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p=V+"/known_findings.txt"
cur=open(p).read() if os.path.exists(p) else ""
m=dict(l.split() for l in open(sys.argv[1]))
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines():
    h,s=l.split(" ",1)
    if s.startswith("fix: ") and h not in cur:
        if h not in m: print("unmapped",h,s); continue
        cur+="fixed: property=%s %s %s\n"%(m[h],h,s[5:])
open(p,"w").write(cur)
