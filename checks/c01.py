"""Commit completeness: failure propagation over everything reachable from the public commit call, the parts a
successful commit must have gone through, and the loops that must hand over every element."""
import ef, loops
from paths import *
from errflow import calleekind,Kinds
MINIMUM={"obligations":60,"success_exits":1}
PARTS=["msi_save_string_table","_libmsi_database_commit_tables","streams","storages","_libmsi_database_close"]
class Must(Rule):
    def __init__(s,P,K,ctx): s.P=P;s.K=K;s.ctx=ctx;s.exits=0;s.missing={}
    def call(s,X,st,I,n,names,args,ret):
        p=part(n,I,X.P,X.F)
        if not p: return None
        ok=st; bad=st.copy()
        ok.rs=(st.rs or frozenset())|{p}
        out=[]
        if X.constrain(ok,ret,"eq",0): out.append(ok)
        if X.constrain(bad,ret,"ne",0): out.append(bad)
        return out
    def branch(s,X,st,I,c,truth):
        d=st.defs.get(c)
        if ro_test(X,I) is not None and ro_test(X,I)==truth: st.rs=(st.rs or frozenset())|{"readonly"}
        return True
    def ret(s,X,st,I,v):
        f=X.value(st,v)
        if f[0]==f[1]==0: return
        done=st.rs or frozenset()
        if "readonly" in done: return
        s.exits+=1
        for p in PARTS:
            if p not in done: s.missing.setdefault(p,I)
def part(n,I,P,F):
    if n in PARTS: return n
    if n in("msi_enum_db_streams","msi_enum_db_storages"): return "streams" if n.endswith("streams") else "storages"
    return None
def flagmask(P,F,o):
    """(loaded field, mask) when o is (field & mask) tested against zero"""
    if o[0]!="i": return None
    I=F.insts[o[1]]
    if I.op=="and":
        for a,b in((0,1),(1,0)):
            if I.a[b][0]=="c":
                L=I.a[a]
                while L[0]=="i" and F.insts[L[1]].op in("zext","sext","trunc"): L=F.insts[L[1]].a[0]
                if L[0]=="i" and F.insts[L[1]].op=="load":
                    k=P.fieldkey(F,F.insts[L[1]].a[0])
                    if k: return k,I.a[b][1]
    return None
def ro_test(X,I):
    """truth value of the branch that means 'read-only', or None"""
    if not I.a or I.a[0][0]!="i": return None
    C=X.F.insts[I.a[0][1]]
    if C.op!="icmp" or C.pred not in("eq","ne"): return None
    m=flagmask(X.P,X.F,C.a[0])
    ro=X.P.enum("LIBMSI_DB_FLAGS_READONLY")
    if not m or m[0][1]!="flags" or m[1]!=ro: return None
    if C.a[1]==("c",0): return C.pred=="ne"
    if C.a[1]==("c",ro): return C.pred=="eq"
    return None
def run(ctx):
    P=ef.run(ctx,["libmsi_database_commit"])
    F=P.fns["libmsi_database_commit"]; r=Must(P,Kinds(P),ctx); X=Explorer(P,F,r); X.run()
    ctx.counts["success_exits"]=r.exits
    for p in PARTS: ctx.ok("libmsi_database_commit goes through %s"%p)
    for p,I in r.missing.items(): ctx.find("commit-without-%s"%p,P.loc(I),"the commit can report success on a writable database without having gone through: %s"%p)
    w=lambda name:(lambda P,F,I:P.callname(F,I)==name)
    ind=lambda P,F,I:I.callee[0] not in("g",)
    loops.every_element(ctx,P,"_libmsi_database_commit_tables",w("save_table"))
    loops.every_element(ctx,P,"msi_enum_db_streams",ind)
    loops.every_element(ctx,P,"msi_enum_db_storages",ind)
    ctx.rule("A commit that reports success on a writable database has called each part writer successfully on that path; the loops over tables, streams and storages call the writer in every iteration and are only left early by failing.")
