"""Loops that must treat every element: the worker call dominates every back edge, and the only way
out of the loop that does not make the function fail is running out of elements."""
from paths import *
def natural_loops(F):
    dom=dominators(F); loops={}
    for b in F.reach:
        for s in F.blocks[b].succ:
            if s in dom[b]:
                body={s,b}; st=[b]
                while st:
                    x=st.pop()
                    if x==s: continue
                    for p in F.blocks[x].pred:
                        if p not in body: body.add(p); st.append(p)
                l=loops.setdefault(s,(set(),set())); l[0].update(body); l[1].add(b)
    return loops
def calls_in(P,F,o,seen=None):
    """calls the value depends on"""
    seen=set() if seen is None else seen; out=set()
    if o in seen or o[0]!="i": return out
    seen.add(o); I=F.insts[o[1]]
    if I.op=="call":
        out.add(P.callname(F,I)); 
        return out
    for x in operands(I): out|=calls_in(P,F,x,seen)
    return out
class TurnRule(Rule):
    """a turn of the loop has called the worker when it goes back to the header"""
    def __init__(self,at,header,body,report): self.at=at;self.header=header;self.body=body;self.report=report
    def precall(self,X,st,I,n,names,args):
        if I.id==self.at: st.rs="treated"
    def edge(self,X,st,b,t):
        if t!=self.header: return
        if b in self.body and st.rs!="treated": self.report(b)
        st.rs="new"
class ExitRule(Rule):
    def __init__(self,body,exits,report,kind): self.body=body;self.exits=exits;self.report=report;self.kind=kind
    def branch(self,X,st,I,c,truth):
        if I.blk in self.body and (I.blk) in self.exits:
            t=I.succ[0] if truth is True else I.succ[1] if truth is False else None
            if t is not None and t not in self.body: st.rs=("early",I.id)
        return True
    def ret(self,X,st,I,v):
        if st.rs is None: return
        f=X.value(st,v) if v is not None else TOP
        bad=(f[0]>0 or f[1]<0 or 0 in f[2]) if self.kind=="rc" else (f[0]==f[1]==0)
        if not bad: self.report(st.rs[1])
def every_element(ctx,P,fname,worker,kind="rc",counted=("gsf_infile_num_children",),require=1):
    """worker(P,F,I)->bool selects the call that treats an element"""
    F=ctx.need(P.fn(fname),"function %s not found"%fname)
    loops=natural_loops(F); dom=dominators(F); n=0
    for I in P.calls(F):
        if not worker(P,F,I): continue
        inner=[(len(b),h,b,l) for h,(b,l) in loops.items() if I.blk in b]
        if not inner: continue
        _,h,body,latches=min(inner)
        n+=1; ctx.ok("%s: every iteration calls %s"%(P.loc(I),P.callname(F,I)))
        if any(I.blk not in dom[l] for l in latches):
            def skipped(l,I=I): ctx.find("%s:skip"%fname,P.loc(F.blocks[l].term),"an iteration of the loop in %s can end without calling %s"%(fname,P.callname(F,I)))
            Explorer(P,F,TurnRule(I.id,h,body,skipped)).run()
        exits=set()
        for b in body:
            T=F.blocks[b].term
            if any(s not in body for s in F.blocks[b].succ) and T.op in("br","switch"):
                cs=calls_in(P,F,T.a[0]) if T.a else set()
                # the exit for "no more elements": depends on the cursor only, not on what the worker or a filter said
                cur=cursor_test(P,F,T,body,h,counted)
                if not cur: exits.add(b)
        def rep(i): ctx.find("%s:early-exit"%fname,P.loc(F.insts[i]),"the loop in %s can be left here with elements remaining while the function reports success"%fname)
        X=Explorer(P,F,ExitRule(body,exits,rep,kind)); X.run()
    ctx.need(n>=require,"no loop calling the per-element worker in %s"%fname)
    ctx.fns([fname])
def cursor_test(P,F,T,body,h,counted):
    """the branch tests the loop cursor (phi of the header, its address or successor) against a bound"""
    if not T.a or T.a[0][0]!="i": return False
    C=F.insts[T.a[0][1]]
    if C.op!="icmp": return False
    phis=set(); deps=[]
    def go(o,seen):
        if o in seen: return
        seen.add(o)
        if o[0]!="i": return
        I=F.insts[o[1]]
        if I.op=="phi" and I.blk in body: phis.add(I.id)
        if I.op=="call":
            n=P.callname(F,I)
            if n in counted: return
            deps.append(n); return
        if I.op=="phi" and I.blk not in body: return
        if I.op=="phi" :
            for v,pb in I.phi: go(v,seen)
            return
        for x in operands(I): go(x,seen)
    for o in C.a: go(o,set())
    return not deps and bool(phis)
