#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that titles/anchors stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
exec(open(os.path.join(os.path.dirname(__file__),"properties_src.py")).read())
ids=[x["id"] for x in P]
assert len(ids)==len(set(ids))
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
