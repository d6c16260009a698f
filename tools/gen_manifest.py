#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the checks present and the not-applicable list."""
import json, os, importlib, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0]=[V+"/engine",V+"/checks",V+"/tools"]
from manifest_src import TECH, NA
P=[json.loads(l) for l in open(V+"/properties.jsonl")]
checks=[];na=[]
for p in P:
    i=p["id"]
    if i in NA: na.append({"property":i,"reason":NA[i]}); continue
    assert os.path.exists("%s/checks/%s.py"%(V,i.lower())),i
    t,n=TECH[i]
    checks.append({"property":i,"quick_cmd":"python3 check.py %s quick"%i,"thorough_cmd":"python3 check.py %s thorough"%i,"technique":"static analysis: "+t,"level":"other","level_note":n})
m={"version":1,"setup_cmd":"python3 engine/prep.py setup","checks":checks,"not_applicable":na,"notes":"All checks analyse the LLVM IR of the library and tools (C and Vala-generated C) rebuilt from /repo's working tree on every run; nothing is executed. See DESIGN.md."}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"n/a")
