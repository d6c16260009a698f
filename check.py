#!/usr/bin/env python3
"""check.py <ID> [quick|thorough] — runs one property's static analysis on /repo's current source.
exit 0: holds everywhere analysed; exit 1: VIOLATION lines; exit 3: the analysis could not be carried out."""
import os, sys, json, time, traceback, importlib, re
VERIF=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,os.path.join(VERIF,"engine")); sys.path.insert(0,os.path.join(VERIF,"checks"))
sys.setrecursionlimit(20000)
class AnalysisError(Exception): pass
class Ctx:
    def __init__(self,pid,tier):
        self.id=pid; self.tier=tier; self.thorough=tier=="thorough"
        self.finds=[]; self.counts={}; self.samples=[]; self.units={}; self.assume=[]; self.fnset=set(); self.rules=[]
    def prog(self,unit,inline=True):
        from prog import Prog
        k=(unit,inline)
        if k not in self.units: self.units[k]=Prog(unit,inline)
        return self.units[k]
    def need(self,cond,msg):
        if not cond: raise AnalysisError(msg)
        return cond
    def stuck(self,out,name,loc):
        """a function that comes to no end (aborts, or is not followed to one) for the input it is given"""
        if not out: self.find(name+":stuck",loc,"%s does not come to an end for a valid input"%name)
    def count(self,k,n=1): self.counts[k]=self.counts.get(k,0)+n
    def fns(self,names): self.fnset|=set(names)
    def ok(self,where=None):
        """one obligation examined"""
        self.count("obligations")
        if where and len(self.samples)<12: self.samples.append(where)
    def rule(self,t): self.rules.append(t)
    def find(self,key,where,what):
        """key identifies the construct (no line numbers)"""
        if any(f[0]==key for f in self.finds): return
        self.finds.append((key,where,what))
def known(pid):
    r={}
    p=os.path.join(VERIF,"known_findings.txt")
    for l in open(p) if os.path.exists(p) else ():
        m=re.match(r"finding: property=(\S+) key=(\S+) (.*)",l)
        if m and m.group(1)==pid: r[m.group(2)]=m.group(3)
    return r
def main():
    pid=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get("VERIF_TIER","quick")
    t0=time.time(); ctx=Ctx(pid,tier)
    mod=importlib.import_module(pid.lower())
    try:
        mod.run(ctx)
        for k,n in getattr(mod,"MINIMUM",{}).items():
            ctx.need(ctx.counts.get(k,0)>=n,"only %d %s found, expected at least %d: the code the rule is about has moved"%(ctx.counts.get(k,0),k,n))
    except Exception as e:
        if not isinstance(e,AnalysisError): traceback.print_exc()
        print("ANALYSIS-ERROR property=%s %s"%(pid,e)); 
        if not ctx.finds: return 3
    kn=known(pid); new=[]
    for key,where,what in ctx.finds:
        if key in kn: print("KNOWN-FINDING: property=%s %s: %s"%(pid,where,kn[key]))
        else: new.append((key,where,what))
    ev=os.path.join(VERIF,"evidence"); os.makedirs(ev,exist_ok=True)
    cov={"explanation":(mod.__doc__ or "").strip()+" Rule: "+" ".join(ctx.rules),"functions_analysed":len(ctx.fnset),"samples":ctx.samples or ["-"]}
    if ctx.fnset: cov["functions"]=sorted(ctx.fnset)[:400]
    cov.update(ctx.counts)
    d={"property":pid,"tier":tier if tier in("quick","thorough") else "quick","seed":int(os.environ.get("VERIF_SEED","1") or 1),"level":"other","coverage":cov,"wall_s":round(time.time()-t0,2),"violations":len(new)}
    if ctx.assume: d["assumptions"]=ctx.assume
    with open(os.path.join(ev,pid+".json"),"w") as f: json.dump(d,f,indent=1)
    print("%s: %s"%(pid,", ".join("%s=%s"%x for x in ctx.counts.items())+", functions=%d"%len(ctx.fnset)))
    if new:
        rp=os.path.join(ev,pid+".violations.txt")
        with open(rp,"w") as f:
            for key,where,what in new: f.write("%s\n  at %s\n  %s\n"%(key,where,what))
        for key,where,what in new: print("  %s: %s [%s]"%(where,what,key))
        print("VIOLATION property=%s replay=%s"%(pid,rp))
        return 1
    return 0
if __name__=="__main__": sys.exit(main())
