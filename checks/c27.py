"""Exit status of the command-line tools: outcome-forking dataflow over every function of the tools.  After a failed
call each path must leave the function reporting the failure (its own failure value, or the error out-parameter set), up
to main, where the exit status must be non-zero and a message printed."""
from util import *
from errflow import errparams
MINIMUM={"obligations":250,"functions_judged":150}
MSG={"g_printerr","perror","g_log","g_logv","g_warn_message","g_print_error","psignal"}
SLOTFN={"g_propagate_error","g_clear_error","g_set_error","g_set_error_literal","g_propagate_prefixed_error","g_error_free","g_error_matches","g_set_error_valist","g_prefix_error"}
# fallible without an error parameter, in the tools' C code
PLAIN={"libmsi_record_load_stream":"bool","libmsi_record_get_stream":"ptr","fflush":"rc","fclose":"rc","write":"neg","g_input_stream_read":"neg","xmlDocFormatDump":"neg"}
AMBIG={"libmsi_query_fetch","libmsi_summary_info_get_int","libmsi_summary_info_get_filetime","libmsi_summary_info_get_string","libmsi_summary_info_get_property_type"}
# (function, callee): the failure is an answer the function acts on
HANDLED={
 ("wixl_wix_builder_find_file","g_file_query_info"):"a file missing in one search directory is looked for in the next",
 ("wixl_wix_builder_real_visit_feature","wixl_wix_builder_feature_display_from_string"):"a Display value that is no keyword is a number",
}
MAIN={"main","_vala_main","wixl_main","_vala_array_main"}
FL=(("flushed",),())
OUTPUT={"msiinfo","wixlheat"}      # tools whose product is their standard output
class R0:
    def __init__(s,F): s.F=F
def kindof(t): return "bool" if t in("gboolean","_Bool") else "ptr" if t.endswith("*") else "rc" if t=="int" else None
class T(Rule):
    def __init__(s,C,P,F,ei): s.C=C;s.P=P;s.F=F;s.ei=ei;s.exits=set();s.printed=s.unprinted=False;s.sites=set();s.ok=set()
    def slot(s,X,st,op):
        A=X.addr(st,op)
        if A[1]: return None
        b=A[0]
        if b==("a",s.ei): return A
        if b[0]=="i" and b[1] in s.C.slots(s.F): return A
        return None
    def preserves(s,X,st,I,k): return k==FL or not k[1] and (k[0]==("a",s.ei) or k[0][0]=="i" and k[0][1] in s.C.slots(s.F))
    def keepmem(s,X,st,k,v): return s.preserves(X,st,None,k)
    def precall(s,X,st,I,n,names,args):
        s.pre={}
        for j,a in enumerate(args):
            A=s.slot(X,st,a)
            if A: s.pre[j]=(A,st.mem.get(A))
    def callback(s,I):
        """a callback that sets the error it is handed when it fails is passed along"""
        cb=[a[1] for a in I.a if a[0]=="g" and a[1] in s.C.summary]
        return cb and all(err for c in cb for f,_,err,_ in s.C.summary[c] if f)
    def setslot(s,st,A,v): st.mem[A]=("c",v)
    def message(s,X,I,n,st=None):
        if n in MSG: return True
        if n in("fprintf","vfprintf","fputs","g_fprintf","fwrite","fputc"):
            # anything but the standard output
            return not all(x[0]=="i" and X.F.insts[x[1]].op=="load" and X.F.insts[x[1]].a[0]==("g","stdout") for x in origin(s.P,X.F,I.a[0 if "printf" in n else -1]))
        if n in("printf","puts","g_print"):
            t=s.P.cstr(I.a[0]) if I.a else None
            return bool(t and "sage" in t)
        return False
    def bad(s,st,I,n):
        failed,msg=st.rs; st.rs=((I.id,n),msg)
    def call(s,X,st,I,n,names,args,ret):
        failed,msg=st.rs
        if n=="fflush": st.mem[FL]=("c",1)
        if n=="g_object_ref" or n.endswith("_ref0"): st.env[I.id]=args[0]; return None
        if n.startswith("g_error_new") or n=="g_error_copy": X.constrain(st,ret,"ne",0); return None
        if n=="g_log" and s.ei is not None and any((s.P.cstr(a) or "").find(": uncaught error: ")>=0 for a in I.a): return []   # excluded by the declared error domains
        if names and all(c in s.C.prints for c in names): st.rs=(failed,True); return None
        if s.message(X,I,n): st.rs=(failed,True); return None
        if n in SLOTFN:
            if 0 in s.pre:
                A=s.pre[0][0]
                s.setslot(st,A,0 if n=="g_clear_error" else 1) if n!="g_prefix_error" else None
            return None
        if n in("g_return_if_fail_warning","g_warn_message"): return []      # violated preconditions are not failures
        if n in s.C.exits_always: 
            s.leave(X,st,I,s.C.exits_always[n] if True else None,True); return []
        if s.pre or n in PLAIN:
            if s.P.unit in s.C.CTOOLS and all(c in s.C.summary for c in names) and names:
                out=[]
                for c in names:
                    for f,rf,err,m in s.C.summary[c]:
                        a=st.copy(); k=kindof(s.P.fns[c].dit[0])
                        if m: a.rs=(a.rs[0],True)
                        if rf is not None and k and not X.constrain(a,ret,"ne" if (k=="rc")==rf else "eq",0): continue
                        for j,(A,v) in s.pre.items(): 
                            if err or f and err is None and s.callback(I): s.setslot(a,A,1)
                            elif v is not None: a.mem[A]=v
                        if f: s.bad(a,I,n)
                        out.append(a)
                if any(f for c in names for f,_,_,_ in s.C.summary[c]): s.sites.add(I.id)
                return out
            if n in s.C.noerr: 
                for j,(A,v) in s.pre.items():
                    if v is not None: st.mem[A]=v
                return None
            if all(c in s.P.fns for c in names) and names and s.pre and not any(errparams(s.P,c) for c in names): 
                for j,(A,v) in s.pre.items(): st.mem.pop(A,None)
                return None
            s.sites.add(I.id)
            ok,bad=st,st.copy()
            for j,(A,v) in s.pre.items():
                if v is not None: ok.mem[A]=v
                s.setslot(bad,A,1)
            s.bad(bad,I,n)
            k=PLAIN.get(n) or ({"i32":"bool","ptr":"ptr"}.get(I.ty) if n.startswith("libmsi_") else None)
            out=[]
            z,f=(("ne",0),("eq",0)) if k in("bool","ptr") else (("eq",0),("ne",0)) if k=="rc" else (("sge",0),("eq",-1)) if k=="neg" else (None,None)
            if n in AMBIG: z=None
            if z is None or X.constrain(ok,ret,*z): out.append(ok)
            if f is None or X.constrain(bad,ret,*f): out.append(bad)
            return out
        if s.P.unit in s.C.CTOOLS and (n in s.C.summary or n=="?" and I.ty=="i32"):
            out=[]; s.sites.add(I.id)
            for f,rf,err,m in s.C.summary.get(n,{(False,False,None,False),(True,True,None,False)}):
                a=st.copy(); k=kindof(s.P.fns[n].dit[0]) if n in s.P.fns else "rc"
                if m: a.rs=(a.rs[0],True)
                if rf is not None and k and not X.constrain(a,ret,"ne" if (k=="rc")==rf else "eq",0): continue
                if f: s.bad(a,I,n)
                out.append(a)
            return out
        return None
    def load(s,X,st,I,A,v,fresh): pass
    def noreturn(s,X,st,I,n):
        if n in("exit","_exit"):
            f=X.value(st,X.sym(st,I.a[0])); s.leave(X,st,I,True if f[0]>0 or f[1]<0 or 0 in f[2] else False if f[0]==f[1]==0 else None,False)
    def leave(s,X,st,I,nonzero,msg):
        failed,m=st.rs; m=m or msg
        if failed and nonzero is False: s.C.find("%s:%s:exit-zero"%(X.F.src,failed[1]),s.P,X.F,failed,I,"a failure of %s here ends the program with status 0"%failed[1])
        if nonzero is False and X.F.src not in MAIN and s.P.unit not in s.C.CTOOLS: s.C.find("%s:exit-zero"%X.F.src,s.P,X.F,None,I,"the program ends here with status 0 before the rest of its arguments is processed")
        if nonzero and not m and not s.errset(X,st): s.C.find("%s:silent-exit"%X.F.src,s.P,X.F,None,I,"the program exits with an error status without printing a message")
        if nonzero and not m and failed and s.P.unit in s.C.CTOOLS: s.C.find("%s:silent-exit"%X.F.src,s.P,X.F,None,I,"the program exits with an error status without printing a message")
    def errset(s,X,st):
        return any(k!=FL and not k[1] and s.preserves(X,st,None,k) and v==("c",1) for k,v in st.mem.items())
    def ret(s,X,st,I,v):
        failed,msg=st.rs
        f=X.value(st,v) if v is not None else TOP
        k=kindof(X.F.dit[0]); zero=f[0]==f[1]==0; nz=f[0]>0 or f[1]<0 or 0 in f[2]
        rf=(zero if k in("bool","ptr") else nz) if (zero or nz) and k else None
        err=None
        if s.ei is not None:
            e=st.mem.get((("a",s.ei),())); ef=X.fact(st,e) if e is not None else TOP
            err=True if ef[0]>0 or 0 in ef[2] else False if ef[0]==ef[1]==0 else None
        if X.F.src in MAIN:
            if X.F.src!="main" or s.P.unit in s.C.CTOOLS:
                if failed and not nz: s.C.find("main:%s:exit-zero"%failed[1],s.P,X.F,failed,I,"a failure of %s here can end the program with status 0"%failed[1])
                if not nz and s.P.unit in OUTPUT and st.mem.get(FL)!=("c",1): s.C.find("main:unchecked-output",s.P,X.F,None,I,"the program can end with status 0 without having checked that its output was written")
                if nz and not msg: s.C.find("main:silent-exit",s.P,X.F,failed,I,"the program exits with an error status without printing a message")
            return
        reported=rf is True or err is True
        s.unprinted=s.unprinted or not msg; s.printed=s.printed or msg
        if failed and not reported and not(k is None and s.ei is None and False):
            s.C.find("%s:%s"%(X.F.src,failed[1]),s.P,X.F,failed,I,"a failure of %s here is not reported by %s"%(failed[1],X.F.src))
        if s.P.unit in s.C.CTOOLS:
            if not failed and rf is True and s.C.judged_result(X.F) and not msg and err is not True: s.C.find("%s:failure-without-cause"%X.F.src,s.P,X.F,None,I,"%s fails without anything having failed and without a message"%X.F.src)
            s.exits.add((bool(failed),rf,err,msg))
class Ctx27:
    CTOOLS={"msibuild","msiinfo"}
    def __init__(s,ctx,P): s.ctx=ctx;s.P=P;s.summary={};s._sl={};s.prints=set();s.exits_always={};s.noerr=set()
    def judged_result(s,F): return errparams(s.P,F.name) and kindof(F.dit[0])
    def opaque(s,F):
        """a void pointer parameter handed on as an error location"""
        for I in s.P.calls(F):
            n=s.P.callname(F,I)
            if n.startswith("libmsi_") and I.a and I.a[-1][0]=="a" and F.dit[I.a[-1][1]+1]=="void*": return I.a[-1][1]
    def slots(s,F):
        """local variables holding an error"""
        if F.name in s._sl: return s._sl[F.name]
        P=s.P; r=set()
        al={I.id for I in P.insts(F) if I.op=="alloca"}
        for I in P.insts(F):
            use=I.a[0] if I.op=="getelementptr" and any(x[0]=="f" and x[1] in("%struct._GError","_GError") for x in I.p) else None
            if I.op=="call" and P.callname(F,I) in("g_propagate_error","g_error_free","_g_error_free0","g_error_copy","_g_error_copy0","g_error_matches","g_propagate_prefixed_error"): use=I.a[0 if "prop" not in P.callname(F,I) else 1]
            if use is not None:
                for o in origin(P,F,use):
                    if o[0]=="i" and F.insts[o[1]].op=="load" and F.insts[o[1]].a[0][0]=="i" and F.insts[o[1]].a[0][1] in al: r.add(F.insts[o[1]].a[0][1])
            if I.op!="call": continue
            n=P.callname(F,I)
            if n=="g_clear_error" and I.a[0][0]=="i" and I.a[0][1] in al: r.add(I.a[0][1])
            if n in P.fns or n.startswith("libmsi_"):
                ep=errparams(P,n) if n in P.fns else [len(I.a)-1]
                for j in ep:
                    if 0<=j<len(I.a) and I.a[j][0]=="i" and I.a[j][1] in al: r.add(I.a[j][1])
        s._sl[F.name]=r; return r
    def find(s,key,P,F,failed,I,what):
        h=HANDLED.get((F.src,failed[1])) if failed else None
        if h: s.handled.add((F.src,failed[1])); return
        s.ctx.find("%s:%s"%(P.unit,key),P.loc(F.insts[failed[0]]) if failed else P.loc(I),what+(" (%s)"%P.loc(I) if failed else ""))
def run(ctx):
    for unit in("msibuild","msiinfo","msiextract","wixl","wixlheat"):
        P=ctx.prog(unit); C=Ctx27(ctx,P); C.handled=set()
        ctx.need("main" in P.fns,"no main function in %s"%unit)
        r0=T(C,P,None,None)
        order=[]; seen=set(); cg=P.callgraph()
        def go(n):
            if n in seen: return
            seen.add(n)
            for c in sorted(cg.get(n,())): go(c)
            order.append(n)
        for n in sorted(P.fns): go(n)
        for n in order:
            F=P.fns[n]; ep=errparams(P,n); ei=ep[-1] if ep else C.opaque(F)
            if ei is None and not C.slots(F) and n not in MAIN and unit not in C.CTOOLS and not any(P.callname(F,I) in("exit","_exit") or P.callname(F,I) in C.prints or r0.message(R0(F),I,P.callname(F,I)) for I in P.calls(F)): continue
            r=T(C,P,F,ei); X=Explorer(P,F,r)
            init={(("a",ei),()):("c",0)} if ei is not None else {}
            X.run(init_rs=(None,False),mem=init)
            if X.widened=="limit": r=T(C,P,F,ei); X=Explorer(P,F,r); X.CAP=6; X.run(init_rs=(None,False),mem=init)
            if X.widened=="limit": ctx.count("functions_over_limit"); continue
            if r.printed and not r.unprinted: C.prints.add(n)
            ctx.count("obligations",len(r.sites)); ctx.count("functions_judged"); ctx.fns([unit+":"+F.src])
            if unit in C.CTOOLS:
                # a function that only exits
                if not r.exits and n not in MAIN: C.exits_always[n]=None
                else: C.summary[n]=r.exits
    ctx.rule("After every failed call, each feasible path reports the failure: own failure value or error set, up to main; there the exit status is non-zero and a message was printed.")
