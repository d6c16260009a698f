"""Error out-parameter contract of every function that takes one: typestate of the caller's GError along each path."""
from util import *
from errflow import errparams,calleekind,Kinds,NOMORE,Outs
import ef
MINIMUM={"obligations":60,"functions_with_error":25}
SET={"g_set_error","g_set_error_literal","g_propagate_error","g_propagate_prefixed_error","g_set_error_valist"}
# a NULL/zero result that is not a failure (end of rows, "no", value zero): there only the callee failures and the success side count
AMBIG={"libmsi_database_is_table_persistent","libmsi_query_fetch","libmsi_summary_info_get_int","libmsi_summary_info_get_filetime","libmsi_summary_info_get_string","libmsi_summary_info_get_property_type","libmsi_query_get_error"}
NONNULL={"g_object_new","g_malloc","g_malloc0","g_strdup"}
class G(Rule):
    """rs = (error state, pending failed callee)"""
    contract={}
    fills={"_libmsi_database_get_primary_keys","_libmsi_query_get_column_info"}
    def __init__(s,ctx,P,K,F,ei,outs): s.outs=outs;s.broken=[];s.ctx=ctx;s.P=P;s.K=K;s.F=F;s.ei=ei; s.amb=F.src in AMBIG; s.soft=ef.soft(P); s.ret_t=F.dit[0]; s.exits=0; s.public=not F.local or F.name in {c for v in P.slots().values() for c in v}
    def call(s,X,st,I,n,names,args,ret):
        e,pend=st.rs
        eidx=[j for j,a in enumerate(args) if a==("a",s.ei)]
        if n in("g_return_if_fail_warning",): st.rs=("pre",None); return None
        if e=="pre": return None
        if n in SET and 0 in eidx:
            if e=="set" and n in SET: s.ctx.find("%s:set-twice"%X.F.src,s.P.loc(I),"the error is set a second time on the same path")
            st.rs=("set",pend); return None
        if n=="g_clear_error" and 0 in eidx: st.rs=("unset",pend); return None
        if n=="g_error_matches": return None
        if eidx:
            kinds={s.kind(c) for c in names if c in s.P.fns} or {s.ext(I)}
            k=kinds.pop() if len(kinds)==1 else None
            if k is None: st.rs=("maybe",pend); return None
            out=[]
            z=("eq",0) if k=="rc" else ("ne",0) if k in("bool","ptr") else ("sge",0)
            f=("ne",0) if k=="rc" else ("eq",0) if k in("bool","ptr") else ("eq",-1)
            fa=all(s.contract.get(c,(True,True))[0] for c in names); sn=all(s.contract.get(c,(True,True))[1] for c in names)
            for con,states in((z,(e,) if sn else (e,"set")),(f,("set",) if fa else ("set",e))):
                for x in states:
                    a=st.copy(); a.rs=(x,pend)
                    if X.constrain(a,ret,*con): out.append(a)
            return out
        if n in NONNULL: st.facts[ret]=(1,INF,frozenset())
        if n in s.fills:
            out=[]; ok,bad=st,st.copy(); z,nz=("eq","ne")
            for j,a in enumerate(args):
                A=X.addr(ok,a)
                if A[0][0]=="i" and X.F.insts[A[0][1]].op=="alloca" and not A[1]:
                    ok.mem[A]=("c",1); bad.mem[A]=("c",0) if all(j in s.outs(c) for c in names) else ("i",I.id)
            if X.constrain(ok,ret,z,0): out.append(ok)
            if X.constrain(bad,ret,nz,0): out.append(bad)
            return out
        if s.amb and pend is None:
            k=calleekind(s.P,s.K,X.F,I,names,n)
            if k=="rc":
                ok,bad=st,st.copy(); out=[]; bad.rs=(e,(I.id,n))
                if X.constrain(ok,ret,"eq",0): out.append(ok)
                b=X.constrain(bad,ret,"ne",0)
                for c in s.soft(n):
                    alt=bad.copy(); alt.rs=(e,None)
                    if X.constrain(alt,ret,"eq",c): out.append(alt)
                    b=b and X.constrain(bad,ret,"ne",c)
                if b: out.append(bad)
                return out
        return None
    def kind(s,c):
        F=s.P.fns[c]
        if F.src in AMBIG: return None
        return retkind(F.dit[0])
    def ext(s,I): return {"i32":"bool","ptr":"ptr","i64":"neg"}.get(I.ty)
    def store(s,X,st,I,A,v):
        if A[0]==("a",s.ei) and not A[1]:
            f=X.fact(st,v); st.rs=("unset" if f[0]==f[1]==0 else "set",st.rs[1])
    def load(s,X,st,I,A,v,fresh):
        # the preconditions require *error to be clear on entry
        if fresh and A[0]==("a",s.ei) and not A[1]:
            if st.rs[0]=="unset": st.facts[v]=(0,0,frozenset())
            elif st.rs[0]=="set": st.facts[v]=(1,INF,frozenset())
    def ret(s,X,st,I,v):
        e,pend=st.rs
        if e=="pre": return
        s.exits+=1
        f=X.value(st,v) if v is not None else TOP
        k=retkind(s.ret_t)
        w=s.P.loc(I); name=X.F.src
        if s.amb:
            if pend and e=="unset": s.ctx.find("%s:%s-silent"%(name,pend[1]),s.P.loc(X.F.insts[pend[0]]),"a failure of %s leaves %s without an error being set"%(pend[1],name))
            if k=="ptr" and e=="set" and f[0]>0: s.ctx.find("%s:success-with-error"%name,w,"a result is returned although the error was set")
            return
        if k is None: return
        zero=f[0]==f[1]==0; nz=f[0]>0 or f[1]<0 or 0 in f[2]
        fail,succ=(nz,zero) if k=="rc" else (f[1]<0,f[1]>=0) if k=="neg" else (zero,nz)
        if e=="maybe": return
        if e=="set" and not fail: s.broken.append(1); s.public and s.ctx.find("%s:success-with-error"%name,w,"%s can return success with the error set"%name)
        if e=="unset" and not succ: s.broken.append(0); s.public and s.ctx.find("%s:failure-without-error"%name,w,"%s can fail without setting the error"%name)
def retkind(t):
    if t=="gboolean" or t=="_Bool": return "bool"
    if t.endswith("*"): return "ptr"
    if t in("LibmsiResult","unsigned int"): return "rc"
    if t=="gssize": return "neg"
    return None
def run(ctx):
    P=ctx.prog("libmsi"); K=Kinds(P)
    outs=Outs(P,K); todo=[n for n in sorted(P.fns) if errparams(P,n) and P.fns[n].src!="libmsi_query_get_error"]
    # callees first
    order=[]; seen=set(); cg=P.callgraph()
    def go(n):
        if n in seen: return
        seen.add(n)
        for c in sorted(cg[n]): go(c)
        if n in todo: order.append(n)
    for n in todo: go(n)
    for n in order:
        F=P.fns[n]; ep=errparams(P,n)
        ctx.count("functions_with_error"); ctx.fns([F.src])
        r=G(ctx,P,K,F,ep[-1],outs); X=Explorer(P,F,r); X.run(init_rs=("unset",None),facts={("a",ep[-1]):(1,INF,frozenset())})
        G.contract[n]=(0 not in r.broken,1 not in r.broken)
        if r.public: ctx.count("functions_judged")
        ctx.count("obligations",r.exits)
        ctx.need(X.widened!="limit","path limit in %s"%n)
    ctx.rule("At every exit of a public function (or stream operation) reached without a violated precondition: failure value implies the error was set on that path, success value implies it was not, and it is never set twice; internal callees given the error are summarised the same way.")
