"""Ordering of the effects on the database file: which calls may touch files, what they are given, and on which
paths they are reached."""
import ef
from util import *
from c01 import PARTS,Must
from errflow import Kinds
MINIMUM={"obligations":10,"rename_paths":1,"unlink_paths":1,"open_paths":2}
FSMOD={"unlink","g_unlink","remove","g_remove","rename","g_rename","truncate","link","symlink","g_file_delete","g_file_move","g_file_copy"}
CREATE={"gsf_output_stdio_new","gsf_output_stdio_new_full","fopen","g_fopen","creat","g_creat","gsf_output_stdio_new_FILE"}
class Close(Events):
    calls={"gsf_output_close":"bool","g_rename":"rc","rename":"rc"}
    fields=("path",)
    def __init__(s,ctx,P): s.ctx=ctx;s.P=P;s.n={}
    def at(s,X,st,I,n,args,ret):
        ctx=s.ctx; F=X.F; ev=st.rs or ()
        if n in("g_rename","rename"):
            ctx.count("rename_paths"); ctx.ok(s.P.loc(I))
            a=[(loadfield(s.P,F,x) or (0,"?"))[1] for x in I.a[:2]]
            if a!=["outpath","path"]: ctx.find("close:rename-arguments",s.P.loc(I),"the file moved is %s -> %s, not the scratch file onto the database path"%tuple(a))
            f=X.fact(st,("a",1))
            if not(f[0]>0 or 0 in f[2]): ctx.find("close:rename-uncommitted",s.P.loc(I),"the original file can be replaced on a path without a commit")
            if ("call","gsf_output_close") not in ev and not s.nofile(X,st): ctx.find("close:rename-unclosed",s.P.loc(I),"the original file can be replaced although the new one was not closed successfully")
            if ("fail","gsf_output_close") in ev: ctx.find("close:rename-unclosed",s.P.loc(I),"the original file can be replaced although closing the new one failed")
        if n in("unlink","g_unlink","remove","g_remove"):
            ctx.count("unlink_paths"); ctx.ok(s.P.loc(I))
            k=(loadfield(s.P,F,I.a[0]) or (0,"?"))[1]
            if k!="outpath": ctx.find("close:unlink-argument",s.P.loc(I),"the file deleted is not the scratch file (%s)"%k)
            f=X.fact(st,("a",1))
            if ("call","gsf_output_close") in ev and not f[0]==f[1]==0: ctx.find("close:unlink-committed",s.P.loc(I),"the file just committed can be deleted")
            if ("call","gsf_output_close") not in ev and ("fail","gsf_output_close") not in ev: ctx.find("close:unlink-foreign",s.P.loc(I),"a file can be deleted although no output was started on it")
    def nofile(s,X,st): return ("nofile",) in (st.rs or ())
    def ret(s,X,st,I,v):
        f=X.value(st,v)
        if not(f[0]<=0<=f[1]) or 0 in f[2]: return
        a=X.fact(st,("a",1)); ev=st.rs or ()
        if (a[0]>0 or 0 in a[2]) and ("call","gsf_output_close") in ev and s.havepath(X,st):
            s.ctx.ok()
            if not any(e in ev for e in(("call","g_rename"),("call","rename"))) and not any(e[0]=="st" and e[1]=="path" for e in ev):
                s.ctx.find("close:not-in-place",s.P.loc(I),"a committed close can succeed without moving the new file into place")
    def havepath(s,X,st): return ("outpath",) in (st.rs or ())
    def branch(s,X,st,I,c,truth):
        # is there an output path?
        C=X.F.insts.get(I.a[0][1]) if I.a and I.a[0][0]=="i" else None
        if C is not None and C.op=="icmp" and C.a[1][0] in("n","c") and (loadfield(s.P,X.F,C.a[0]) or(0,0))[1]=="outpath":
            if (C.pred=="ne")==truth: s.ev(st,"outpath")
        if C is not None and C.op=="icmp" and C.a[1][0] in("n","c") and (loadfield(s.P,X.F,C.a[0]) or(0,0))[1]=="outfile":
            if (C.pred=="eq")==truth and not any(e[1:]==("gsf_output_close",) for e in st.rs or ()): s.ev(st,"nofile")
        return True
class Start(Events):
    fields=("rename_outpath","outpath")
    def __init__(s,ctx,P):
        s.ctx=ctx;s.P=P; s.RO=P.enum("LIBMSI_DB_FLAGS_READONLY"); s.CR=P.enum("LIBMSI_DB_FLAGS_CREATE")
        s.flags=(("flags",s.RO),("flags",s.CR))
    def describe(s,X,st,I,v):
        o=skipcast(X.F,v) if v[0]=="i" else v
        if o[0]=="c": return o[1]
        if o[0] in("i","o"):
            C=X.F.insts[o[1]]
            if C.op=="call":
                n=X.P.callname(X.F,C); args=[X.sym(st,a) for a in C.a]
                strs=[X.P.cstr(a) for a in args]; frompath=any((loadfield(X.P,X.F,a) or (0,0))[1]=="path" for a in C.a)
                if n=="g_strconcat": return "other" if any(strs) else "same" if frompath else "?"
                if n in("g_strdup_printf",): return "other" if strs[0] and strs[0]!="%s" and len(strs[0].replace("%s",""))>0 else "same"
                if n in("g_strdup","strdup"): return "same"
                if n in IDENT: return "?"
        f=X.fact(st,v)
        return 0 if f[0]==f[1]==0 else "?"
    def at(s,X,st,I,n,args,ret):
        if n not in CREATE: return
        ctx=s.ctx; ev=st.rs or frozenset(); ctx.count("open_paths"); ctx.ok(s.P.loc(I))
        k=(loadfield(s.P,X.F,I.a[0]) or (0,"?"))[1]
        if k!="outpath":
            ctx.find("start:argument",s.P.loc(I),"output is opened on %s, not on the scratch path"%k); return
        op=[e[2] for e in ev if e[0]=="st" and e[1]=="outpath"]; rn=[e[2] for e in ev if e[0]=="st" and e[1]=="rename_outpath"]
        create=("flag","flags",s.CR,True) in ev
        if op and op[0]!=0:
            if not create and op[0]!="other": ctx.find("start:in-place",s.P.loc(I),"an existing database can be written in place instead of to a scratch file")
            if not create and (not rn or rn[0] not in(1,True,-1)): ctx.find("start:not-renamed",s.P.loc(I),"the scratch file of an existing database is not marked to be moved into place by the commit")
            if create and op[0]=="other" and (not rn or rn[0] in(0,False)): ctx.find("start:create-suffix",s.P.loc(I),"a created database is written to a different path and not moved into place")
        else:
            if rn and rn[0] not in(0,False): ctx.find("start:rename-separate",s.P.loc(I),"a separately named output is marked to replace the original")
class CommitOrder(Must):
    def __init__(s,P,K,ctx): Must.__init__(s,P,K,ctx); s.sites=0
    def precall(s,X,st,I,n,names,args):
        if n=="_libmsi_database_close":
            s.sites+=1; done=st.rs or frozenset()
            for p in PARTS[:-1]:
                s.ctx.ok()
                if p not in done: s.ctx.find("commit:close-before-%s"%p,s.P.loc(I),"the new file is closed and put in place before this was written successfully: %s"%p)
def run(ctx):
    P=ctx.prog("libmsi")
    DBF={"path","outpath"}
    # every call in the library that can remove, move or create a file
    n=0
    for F,I,nm in allcalls(P,FSMOD|CREATE):
        n+=1; ks={(loadfield(P,F,a) or (0,0))[1] for a in I.a}
        if F.src=="_libmsi_database_close" and nm not in CREATE or F.src=="_libmsi_database_start_transaction" and nm in CREATE: continue
        ctx.ok(P.loc(I))
        if nm in CREATE and F.src in P.reachable(["libmsi_database_export"]) and not ks&DBF: continue
        ctx.find("%s:%s"%(F.src,nm),P.loc(I),"%s is called outside the close and start of a transaction"%nm)
    ctx.count("file_effect_sites",n)
    F=ctx.need(P.fn("_libmsi_database_close"),"close not found"); X=Explorer(P,F,Close(ctx,P)); X.run()
    G=ctx.need(P.fn("_libmsi_database_start_transaction"),"start_transaction not found"); Explorer(P,G,Start(ctx,P)).run()
    for H,I,nm in allcalls(P,{"_libmsi_database_close"}):
        a=I.a[1]; ctx.ok(P.loc(I))
        if a==("c",0): continue
        if H.src!="libmsi_database_commit": ctx.find("%s:committed-close"%H.src,P.loc(I),"the database is closed as committed outside a commit"); continue
        r=CommitOrder(P,Kinds(P),ctx); Explorer(P,H,r).run(); ctx.need(r.sites,"no close in commit")
    ctx.fns([F.src,G.src,"libmsi_database_commit"])
    ctx.rule("Every call that removes, moves or creates a file is enumerated. The scratch file is moved onto the path only when closing as committed after a successful close of the container; only the scratch file is deleted, and only on an uncommitted close; the commit closes as committed only after every part was written; an opened database is never written in place.")
