"""Affine view of integer values: a value as a polynomial over atoms (loop counters, loaded fields,
call results, arguments).  Used to compare address computations for equality."""
from prog import *
from collections import defaultdict
CASTS=("zext","sext","trunc","bitcast","freeze")
class Poly(dict):
    def __add__(s,o):
        r=Poly(s)
        for k,v in o.items():
            r[k]=r.get(k,0)+v
            if not r[k]: del r[k]
        return r
    def scale(s,c): return Poly({k:v*c for k,v in s.items()}) if c else Poly()
    def __sub__(s,o): return s+o.scale(-1)
    def __mul__(s,o):
        r=Poly()
        for a,x in s.items():
            for b,y in o.items(): r=r+Poly({tuple(sorted(a+b)):x*y})
        return r
    def const(s): return s.get((),0) if all(k==() for k in s) else None
    def __hash__(s): return hash(frozenset(s.items()))
def K(c): return Poly({():c}) if c else Poly()
class Affine:
    def __init__(s,P,F,atom=None):
        s.P=P; s.F=F; s.hook=atom; s.memo={}
    def atom(s,o):
        if s.hook:
            r=s.hook(s,o)
            if r is not None: return r
        if o[0]=="i":
            I=s.F.insts[o[1]]
            if I.op=="load":
                k=s.P.fieldkey(s.F,I.a[0])
                if k: return Poly({(("fld",)+tuple(k)+(s.base(I.a[0]),),):1})
        return Poly({(o,):1})
    def base(s,o):
        """what object a field is loaded from: the index polynomial of the last array step, or nothing"""
        return s.index(o)
    def index(s,o):
        """polynomial index of an address relative to the pointer it is computed from (first plain step), hashable"""
        while o[0]=="i" and s.F.insts[o[1]].op=="getelementptr":
            G=s.F.insts[o[1]]
            for st in G.p:
                if st[0]=="*" and st[2]!=("c",0): return frozenset(s(st[2]).items())
            o=G.a[0]
        return None
    def __call__(s,o):
        if o in s.memo: return s.memo[o]
        s.memo[o]=Poly({(o,):1})
        r=s.ev(o); s.memo[o]=r; return r
    def ev(s,o):
        if o[0]=="c": return K(o[1]) if isinstance(o[1],int) else Poly({(o,):1})
        if o[0]!="i": return Poly({(o,):1})
        I=s.F.insts[o[1]]
        if I.op in CASTS: return s(I.a[0])
        if I.op=="add": return s(I.a[0])+s(I.a[1])
        if I.op=="sub": return s(I.a[0])-s(I.a[1])
        if I.op=="mul": return s(I.a[0])*s(I.a[1])
        if I.op=="shl":
            k=s(I.a[1]).const()
            if k is not None and 0<=k<32: return s(I.a[0]).scale(1<<k)
        if I.op=="or":
            pass
        if I.op=="phi":
            vs={v for v,_ in I.phi}-{o}
            if len(vs)==1: return s(vs.pop())
        return s.atom(o)
    # ---- loop counters
    def phi(s,p):
        """(initial values, steps) of a loop header phi; steps: set of polynomials added on the way round"""
        F=s.F; I=F.insts[p[1]]
        if I.op!="phi": return None
        loops=s.loops()
        if I.blk not in loops: return None
        body,lat=loops[I.blk]
        init=set(); step=set()
        me=Poly({(p,):1})
        for v,pb in I.phi:
            if pb not in body: init.add(s(v)); continue
            for w in s.merge(v,body,I.blk): step.add(s(w)-me)
        return init,step
    def merge(s,v,body,h,seen=None):
        """values a merge of branches inside the loop can take"""
        seen=set() if seen is None else seen; out=[]
        if v in seen: return out
        seen.add(v)
        if v[0]=="i":
            J=s.F.insts[v[1]]
            if J.op=="phi" and J.blk in body and J.blk!=h and J.blk not in s.loops():
                for w,_ in J.phi: out+=s.merge(w,body,h,seen)
                return out
            if J.op in CASTS: return s.merge(J.a[0],body,h,seen)
        return [v]
    def leaves(s,o,seen=None):
        """values a merge of branches can take; loop counters are not expanded"""
        seen=set() if seen is None else seen
        if o in seen: return []
        seen.add(o)
        if o[0]=="i":
            I=s.F.insts[o[1]]
            if I.op=="phi" and I.blk not in s.loops():
                r=[]
                for v,_ in I.phi: r+=s.leaves(v,seen)
                return r
        return [o]
    def loops(s):
        if not hasattr(s.F,"_loops"):
            import loops as L
            s.F._loops=L.natural_loops(s.F)
        return s.F._loops
    def counter(s,p,start=0,by=1):
        """p counts from start by one (or by another polynomial) on every iteration"""
        r=s.phi(p)
        if r is None: return False
        b=by if isinstance(by,Poly) else K(by)
        return r[0]=={K(start)} and r[1]=={b}
    def single(s,poly):
        """the atom if the polynomial is exactly one atom"""
        if len(poly)==1:
            (k,v),=poly.items()
            if v==1 and len(k)==1: return k[0]
        return None
# ---- control flow
def reach(F,start,cut_edges=(),cut_blocks=()):
    """blocks reachable from the block `start`"""
    seen=set(); w=[start]
    while w:
        b=w.pop()
        if b in seen or b in cut_blocks: continue
        seen.add(b)
        for t in F.blocks[b].succ:
            if (b,t) not in cut_edges: w.append(t)
    return seen
def onlyvia(F,edges,blk):
    """every way from the entry to blk takes one of the edges"""
    return blk not in reach(F,0,cut_edges=set(edges))
