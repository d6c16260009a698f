"""Small queries shared by the checks."""
from paths import *
import prog
def skipcast(F,o):
    while o[0]=="i" and F.insts[o[1]].op in("bitcast","zext","sext","trunc","freeze"): o=F.insts[o[1]].a[0]
    while o[0]=="i" and F.insts[o[1]].op=="call" and F.insts[o[1]].callee[0]=="g" and F.insts[o[1]].callee[1] in IDENT: o=F.insts[o[1]].a[0]
    return o
def loadfield(P,F,o):
    """(struct,field) if the operand is a load of a field"""
    o=skipcast(F,o)
    if o[0]=="i":
        I=F.insts[o[1]]
        if I.op=="load": return P.fieldkey(F,I.a[0])
    return None
def origin(P,F,o,seen=None):
    """set of instructions/constants a value can come from through casts, phis, selects"""
    out=set(); st=[o]; seen=set()
    while st:
        x=skipcast(F,st.pop())
        if x in seen: continue
        seen.add(x)
        if x[0]=="i":
            I=F.insts[x[1]]
            if I.op=="phi": st+=[v for v,_ in I.phi]; continue
            if I.op=="select": st+=[I.a[1],I.a[2]]; continue
        out.add(x)
    return out
def flagtest(X,I,field,mask):
    """truth value of the branch I meaning (field & mask) is set, else None"""
    P,F=X.P,X.F
    if not I.a or I.a[0][0]!="i": return None
    inv=False; C=F.insts[I.a[0][1]]
    while C.op=="xor" and C.a[1][0]=="c" and C.a[0][0]=="i": inv=not inv; C=F.insts[C.a[0][1]]
    if C.op!="icmp" or C.pred not in("eq","ne"): 
        return None
    A=C.a[0]
    A=skipcast(F,A)
    if A[0]!="i" or F.insts[A[1]].op!="and": return None
    N=F.insts[A[1]]
    for a,b in((0,1),(1,0)):
        if N.a[b]==("c",mask) and (loadfield(P,F,N.a[a]) or (0,0))[1]==field:
            if C.a[1]==("c",0): r=C.pred=="ne"
            elif C.a[1]==("c",mask): r=C.pred=="eq"
            else: return None
            return r!=inv
    return None
def allcalls(P,names):
    for F in P.fns.values():
        for I in P.calls(F):
            n=P.callname(F,I)
            if n in names: yield F,I,n
class Events(Rule):
    """collects events along a path: calls (with outcome), flag tests, field stores"""
    flags=()      # (field,mask)
    calls={}      # name -> kind of result ("bool","rc","ptr",None)
    fields=()
    def ev(s,st,*e): st.rs=(st.rs or frozenset())|{tuple(e)}
    def drop(s,st,pred): st.rs=frozenset(x for x in st.rs or () if not pred(x))
    def branch(s,X,st,I,c,truth):
        for f,m in s.flags:
            t=flagtest(X,I,f,m)
            if t is not None: s.ev(st,"flag",f,m,t==truth)
        return True
    def store(s,X,st,I,A,v):
        lf=lastf(A)
        if lf and lf[1] in s.fields:
            s.drop(st,lambda x:x[0]=="st" and x[1]==lf[1]); s.ev(st,"st",lf[1],s.describe(X,st,I,v))
    def describe(s,X,st,I,v):
        if v[0]=="c": return v[1]
        f=X.fact(st,v)
        return 0 if f[0]==f[1]==0 else "?"
    def call(s,X,st,I,n,names,args,ret):
        s.at(X,st,I,n,args,ret)
        if n not in s.calls: return None
        k=s.calls[n]
        if k is None: s.ev(st,"call",n); return None
        ok,bad=st,st.copy()
        z,nz=("eq","ne") if k in("rc",) else ("ne","eq")
        out=[]
        if X.constrain(ok,ret,z,0): s.ev(ok,"call",n); out.append(ok)
        if X.constrain(bad,ret,nz,0): s.ev(bad,"fail",n); out.append(bad)
        return out
    def at(s,X,st,I,n,args,ret): pass
def lastf(A):
    for x in reversed(A[1]):
        if x[0]=="f": return (x[1].replace("%struct.","").replace("%union.",""),x[3])
    return None
