"""Error-propagation rule: a failure reported by a callee must make the caller fail.

Every call site of a fallible callee is an obligation.  The path explorer forks
the outcome at the site; on the failure branch every reachable exit of the
caller has to report failure in the caller's own convention."""
from paths import *
NOMORE=2147483647
# external callees: how a failure looks
#   rc  : nonzero is failure          bool : zero/FALSE is failure
#   ptr : NULL is failure             neg  : negative is failure
#   boolinv : TRUE/nonzero is failure
EXTERN={
 "gsf_output_write":"bool","gsf_output_close":"bool","gsf_output_seek":"bool","gsf_input_seek":"boolinv","gsf_input_copy":"bool",
 "gsf_outfile_new_child":"ptr","gsf_outfile_msole_new":"ptr","gsf_output_stdio_new":"ptr","gsf_input_stdio_new":"ptr","gsf_infile_msole_new":"ptr",
 "gsf_input_dup":"ptr","gsf_input_read":"ptr","gsf_outfile_msole_set_class_id":"bool",
 "gsf_infile_child_by_name":"ptr","gsf_infile_child_by_index":"ptr",
 "rename":"rc","g_rename":"rc","unlink":"rc","mkdir":"rc","write":"short","read":"neg",
 "malloc":"ptr","calloc":"ptr","realloc":"ptr","g_try_malloc":"ptr","strdup":"ptr",
 "g_file_get_contents":"bool","g_input_stream_read_all":"bool","g_file_replace":"ptr","g_output_stream_splice":"m1","g_file_make_directory_with_parents":"bool",
 "g_convert_with_iconv":"ptr",
}
ALLOC={"malloc","calloc","realloc","g_try_malloc","strdup"}
def retsources(P,F):
    out=set(); seen=set()
    def go(o):
        if o in seen: return
        seen.add(o)
        if o[0]=="c": out.add(o[1]); return
        if o[0]=="n": out.add("null"); return
        if o[0]=="i":
            I=F.insts[o[1]]
            if I.op=="phi":
                for v,_ in I.phi: go(v)
                return
            if I.op=="select": go(I.a[1]); go(I.a[2]); return
            if I.op in("zext","sext","trunc","freeze"): go(I.a[0]); return
            if I.op=="call": out.add(("call",I)); return
            out.add(I.op); return
        out.add(o[0])
    for I in P.insts(F):
        if I.op=="ret" and I.a: go(I.a[0])
    return out
class Kinds:
    """how each function of the unit reports failure"""
    def __init__(self,P):
        self.P=P; self.kind={}
        res=set(P.enums.get("LibmsiResult",{}).values())|{NOMORE}
        slotfns=set()
        for (s,f),v in P.slots().items():
            if s=="_LibmsiViewOps" and f not in("add_ref","release"): slotfns|=v
        rs={n:retsources(P,F) for n,F in P.fns.items()}
        cand={}
        for n,F in P.fns.items():
            t=F.dit[0] if F.dit else ""
            if t in("unsigned int","LibmsiResult","UINT") and F.ret=="i32":
                consts={x for x in rs[n] if isinstance(x,int)}
                others={x for x in rs[n] if isinstance(x,str)}
                calls={x for x in rs[n] if isinstance(x,tuple)}
                if not consts<=res: continue
                if others-{"load"}: continue
                if others and not(consts or calls): continue
                if n not in slotfns and not calls and 0 not in consts and consts and len(consts)==1: continue
                cand[n]=(consts,calls)
        ch=True
        while ch:
            ch=False
            for n in list(cand):
                for _,I in cand[n][1]:
                    cs=P.callees(P.fns[n],I)
                    if cs and not all(c in cand for c in cs if c in P.fns):
                        if any(c in P.fns and c not in cand and (P.fns[c].dit or [""])[0] not in("gboolean","int") for c in cs): del cand[n]; ch=True; break
        for n in cand: self.kind[n]="rc"
        for n,F in P.fns.items():
            if n in self.kind: continue
            t=F.dit[0] if F.dit else ""
            if t in("gboolean","_Bool"): self.kind[n]="bool?"
            elif t.endswith("*"): self.kind[n]="ptr?"
    def of(self,n):
        return self.kind.get(n)
INT_BOOL={"libmsi_record_set_int","libmsi_record_set_string","libmsi_record_set_stream","libmsi_record_load_stream","libmsi_record_clear",
 "streams_set_table_size","storages_set_table_size","msi_export_stream","sql_mark_primary_keys",
 "libmsi_database_apply_transform","libmsi_database_commit","libmsi_database_export","libmsi_database_import","libmsi_database_merge",
 "libmsi_query_close","libmsi_query_execute","libmsi_summary_info_persist","libmsi_summary_info_save","libmsi_summary_info_set_filetime","libmsi_summary_info_set_int","libmsi_summary_info_set_string","init"}
INT_PTR={"create_storage","create_stream","libmsi_record_new","_libmsi_record_clone","msi_query_merge_record","msi_read_text_archive","msi_record_to_row",
 "distinct_insert","init_stringtable","msi_init_string_table","msi_load_string_table","create_diff_row_query","get_key_value",
 "encode_streamname","parser_alloc_column","parser_alloc","build_expr_column","build_expr_complex","build_expr_ival","build_expr_sval","build_expr_unary","build_expr_wildcard","parser_add_table",
 "msi_build_createsql_columns","msi_build_createsql_postlude","msi_build_createsql_prelude","_libmsi_record_get_stream","libmsi_query_new","libmsi_database_new","libmsi_summary_info_new","libmsi_query_fetch","libmsi_query_get_column_info","libmsi_database_get_primary_keys","_libmsi_query_get_record","msi_get_transform_record","libmsi_istream_new"}
INT_NEG={"_libmsi_add_string":"neg","msi_addstring":"neg"}
def calleekind(P,K,F,I,names,n):
    if n in NOTFALLIBLE: return None
    if n in EXTERN: return EXTERN[n]
    if n in INT_BOOL: return "bool"
    if n in INT_PTR: return "ptr"
    if n in INT_NEG: return INT_NEG[n]
    ks={K.of(c) for c in names if c in P.fns}
    if ks=={"rc"} or (ks and "rc" in ks): return "rc"
    if not names and n=="?" and I.ty=="i32": return "rc"   # callback parameter
    return None
# destructors and scope ends report nothing a caller could act on; a field store
# into a record this code has just sized cannot fail; memory exhaustion is excluded
# from the properties
NOTFALLIBLE=ALLOC|{"_LibmsiViewOps->delete","_LibmsiViewOps->close","libmsi_query_close","libmsi_record_set_string","libmsi_record_set_int","libmsi_record_new","libmsi_record_clear","parser_alloc","create_diff_row_query","get_key_value"}
def ownkind(P,K,F):
    if F.src in INT_BOOL: return "bool"
    if F.src in INT_PTR: return "ptr"
    if F.src in INT_NEG: return "neg"
    k=K.of(F.name)
    if k=="rc": return "rc"
    return None
class OutRule(Rule):
    """which pointer out-parameters may hold something when the function fails"""
    def __init__(self,P,K,kind,params,outs):
        self.P=P;self.K=K;self.kind=kind;self.params=params;self.outs=outs;self.dirty=set()
    def store(self,X,st,I,A,v):
        if A[0][0]=="a" and not A[1] and A[0][1] in self.params:
            p=A[0][1]; st.rs=frozenset(x for x in st.rs or () if x[0]!=p)|{(p,v)}
    def call(self,X,st,I,n,names,args,ret):
        ps=[(j,a[1]) for j,a in enumerate(args) if a[0]=="a" and a[1] in self.params]
        if not ps: return None
        k=calleekind(self.P,self.K,X.F,I,names,n)
        clean={p for j,p in ps if names and all(j in self.outs(c) for c in names if c in self.P.fns) and all(c in self.P.fns for c in names)}
        bad=st.copy(); allp=frozenset(p for _,p in ps)
        st.rs=frozenset(x for x in st.rs or () if x[0] not in allp)|{(p,"?") for p in allp}
        bad.rs=frozenset(x for x in bad.rs or () if x[0] not in allp-clean)|{(p,"?") for p in allp-clean}
        if k is None or not clean: return None
        out=[]
        z,nz=("eq","ne") if k=="rc" else ("ne","eq")
        if X.constrain(st,ret,z,0): out.append(st)
        if X.constrain(bad,ret,nz,0): out.append(bad)
        return out
    def ret(self,X,st,I,v):
        f=X.value(st,v) if v is not None else TOP
        ok=f[0]==f[1]==0 if self.kind=="rc" else (f[0]>0 or f[1]<0 or 0 in f[2])
        if not ok: self.dirty|={p for p,s in st.rs or () if s=="?" or not X.fact(st,s)[0]==0==X.fact(st,s)[1]}
class Outs:
    """callee -> parameters that are left alone (or NULL) whenever it fails"""
    def __init__(self,P,K): self.P=P;self.K=K;self.memo={}
    def __call__(self,n):
        if n in self.memo: return self.memo[n]
        self.memo[n]=frozenset()
        F=self.P.fns.get(n)
        if F is None: return frozenset()
        k=ownkind(self.P,self.K,F)
        if k not in("rc","bool","ptr"): return frozenset()
        ps={i for i,t in enumerate(F.params) if t=="ptr" and i+1<len(F.dit) and F.dit[i+1].replace(" ","").endswith("**")}
        if not ps: return frozenset()
        r=OutRule(self.P,self.K,k,ps,self); X=Explorer(self.P,F,r); X.run()
        res=frozenset() if X.widened=="limit" else frozenset(ps-r.dirty)
        self.memo[n]=res; return res
def errparams(P,n):
    F=P.fns.get(n)
    if F is None: return ()
    return [i for i in range(len(F.params)) if i+1<len(F.dit) and F.dit[i+1].replace(" ","")=="GError**"]
class ErrRule(Rule):
    recover={}   # (caller, failed callee) -> calls that make up for the failure
    def __init__(self,P,K,kind,sites,soft,report,outs,assume=None):
        self.P=P;self.K=K;self.kind=kind;self.sites=sites;self.soft=soft;self.report=report;self.counted=set();self.outs=outs
    def precall(self,X,st,I,n,names,args):
        self.before=dict(st.mem) if st.rs is None else None
    def outparams(self,X,ok,bad,names,n,args):
        """contracts of the callee's out-parameters on success and failure"""
        for j,a in enumerate(args):
            A=X.addr(ok,a)
            b=A[0]
            if A[1] or b[0]!="i" or X.F.insts.get(b[1]) is None or X.F.insts[b[1]].op!="alloca": continue
            if names and all(j in errparams(self.P,c) for c in names):
                bad.mem[A]=("c",1)
                if A in self.before: ok.mem[A]=self.before[A]
            elif names and all(c in self.P.fns and j in self.outs(c) for c in names) and A in self.before: bad.mem[A]=self.before[A]
    def call(self,X,st,I,n,names,args,ret):
        if st.rs is not None:
            if (X.F.src,st.rs[2]) in self.recover and n in self.recover[(X.F.src,st.rs[2])]: st.rs=None
            return None
        k=calleekind(self.P,self.K,X.F,I,names,n)
        if k is None or not self.sites(X.F,I,n): return None
        self.counted.add(I.id)
        ok=st; bad=st.copy(); bad.rs=("F",I.id,n)
        out=[]
        self.outparams(X,ok,bad,names,n,args)
        if k=="rc":
            if X.constrain(ok,ret,"eq",0): out.append(ok)
            b=X.constrain(bad,ret,"ne",0)
            for c in self.soft(n):
                alt=bad.copy(); alt.rs=None
                if X.constrain(alt,ret,"eq",c): out.append(alt)
                b=b and X.constrain(bad,ret,"ne",c)
            if b: out.append(bad)
        elif k in("bool","ptr"):
            if X.constrain(ok,ret,"ne",0): out.append(ok)
            if X.constrain(bad,ret,"eq",0): out.append(bad)
        elif k=="boolinv":
            if X.constrain(ok,ret,"eq",0): out.append(ok)
            if X.constrain(bad,ret,"ne",0): out.append(bad)
        elif k=="short":
            if X.compare(ok,"eq",ret,args[2],True): out.append(ok)
            if X.compare(bad,"eq",ret,args[2],False): out.append(bad)
        elif k=="m1":
            if X.constrain(ok,ret,"sge",0): out.append(ok)
            if X.constrain(bad,ret,"eq",-1): out.append(bad)
        elif k=="neg":
            if X.constrain(ok,ret,"sge",0): out.append(ok)
            if X.constrain(bad,ret,"slt",0): out.append(bad)
        return out
    def load(self,X,st,I,A,v,fresh):
        # a GError that was set carries a code
        if fresh and st.rs is not None and A[1] and A[1][-1][0]=="f" and A[1][-1][1].endswith("_GError") and A[1][-1][3]=="code": st.facts[v]=meet(X.fact(st,v),(-INF,INF,frozenset([0]))) or TOP
    def ret(self,X,st,I,v):
        if st.rs is None: return
        f=X.value(st,v) if v is not None else TOP
        k=self.kind
        ok=False
        if k=="rc": ok=f[0]>0 or f[1]<0 or 0 in f[2]
        elif k in("bool","ptr"): ok=f[0]==0 and f[1]==0
        elif k=="neg": ok=f[1]<0
        if not ok: self.report(X.F,st.rs[1],st.rs[2],I)
def run(P,fns,soft,sites=lambda F,I,n:True,K=None,assume={}):
    """assume: {function: {parameter index: nonzero?}} - the calls the property speaks about"""
    K=K or Kinds(P); finds={}; stats={"functions":0,"sites":0,"states":0}; outs=Outs(P,K)
    for F in fns:
        k=ownkind(P,K,F)
        if k is None or F.src=="sql_parse": continue
        def rep(F,sid,n,I): finds.setdefault((F.name,sid),(n,I))
        r=ErrRule(P,K,k,sites,soft,rep,outs)
        X=Explorer(P,F,r); X.run(facts={("a",i):((1,1,frozenset()) if t else (0,0,frozenset())) for i,t in assume.get(F.src,{}).items()})
        stats["functions"]+=1; stats["sites"]+=len(r.counted); stats["states"]+=X.steps
        if X.widened: stats.setdefault("widened",[]).append(F.src)
    return finds,stats
