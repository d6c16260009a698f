"""Effects of a read-only database: where output is created, how the access mode guards it, and that nothing else
can reach the file."""
from util import *
MINIMUM={"obligations":12,"output_sources":3}
EFFECT={"gsf_outfile_new_child":0,"gsf_outfile_new_child_full":0,"gsf_outfile_new_child_varg":0}
class Guard(Events):
    def __init__(s,ctx,P,sites): s.ctx=ctx;s.P=P;s.sites=sites;s.flags=(("flags",P.enum("LIBMSI_DB_FLAGS_READONLY")),)
    def ro(s,st): return ("flag",)+s.flags[0]+(False,) in (st.rs or ())
    def at(s,X,st,I,n,args,ret):
        if I.id in s.sites:
            s.ctx.ok(s.P.loc(I))
            if not s.ro(st): s.ctx.find("%s:%s"%(X.F.src,n),s.P.loc(I),"%s can be reached with the read-only flag set"%n)
    def store(s,X,st,I,A,v):
        if I.id in s.sites:
            f=X.fact(st,v)
            if f[0]==f[1]==0: return
            s.ctx.ok(s.P.loc(I))
            if not s.ro(st): s.ctx.find("%s:%s"%(X.F.src,s.sites[I.id]),s.P.loc(I),"an output (%s) can be attached to a database opened read-only"%s.sites[I.id])
def run(ctx):
    P=ctx.prog("libmsi"); RO=P.enum("LIBMSI_DB_FLAGS_READONLY")
    guard={}
    # 1. an output container is only attached with the read-only flag clear
    for F in P.fns.values():
        for I in P.insts(F):
            if I.op=="store":
                k=P.fieldkey(F,I.a[1])
                if k and k[1]=="outfile": ctx.count("output_sources"); guard.setdefault(F.name,{})[I.id]="outfile"
                if k and k[1]=="flags" and k[0].endswith("LibmsiDatabase"):
                    # 2. the read-only bit is never cleared afterwards
                    ctx.ok(P.loc(I)); v=I.a[0]; good=False
                    if v[0]=="i":
                        D=F.insts[v[1]]
                        if D.op=="and" and any(a[0]=="c" and a[1]&RO for a in D.a) : good=True
                        if D.op=="or": good=True
                        if D.op=="call" and P.callname(F,D).startswith("g_value_get_"): good=True
                    if not good: ctx.find("%s:flags"%F.src,P.loc(I),"the access mode of a database can be changed after it was opened")
            elif I.op=="call":
                n=P.callname(F,I)
                if n in("gsf_output_stdio_new","gsf_outfile_msole_new"): ctx.count("output_sources"); guard.setdefault(F.name,{})[I.id]=n
    for fn,sites in guard.items(): Explorer(P,P.fns[fn],Guard(ctx,P,sites)).run()
    # 3. container writes go to the attached output only
    for F,I,n in allcalls(P,EFFECT):
        ctx.ok(P.loc(I))
        ks={(loadfield(P,F,o) or (0,0))[1] if o[0]=="i" else o for o in origin(P,F,I.a[0])}
        if ks=={"outfile"}: continue
        if all(o[0]=="a" for o in origin(P,F,I.a[0])):
            for G,C in P.callers()[F.name]:
                for o in origin(P,G,C.a[1] if len(C.a)>1 else C.a[0]):
                    D=G.insts[o[1]] if o[0]=="i" else None
                    if not(D is not None and D.op=="call" and P.callname(G,D) in EFFECT): ctx.find("%s:%s-target"%(G.src,n),P.loc(C),"writes to something other than the output of the transaction")
            continue
        ctx.find("%s:%s-target"%(F.src,n),P.loc(I),"writes to something other than the output of the transaction")
    # 4. deleting or moving files only with an output attached (closing)
    from c02 import FSMOD
    for F,I,n in allcalls(P,FSMOD):
        X=Explorer(P,F,NeedOutput(ctx,P,I.id,n)); X.run()
    # 5. a commit of a read-only database does nothing
    F=ctx.need(P.fn("libmsi_database_commit"),"commit not found")
    parts={I.id:P.callname(F,I) for I in P.calls(F) if P.callname(F,I) in("msi_save_string_table","_libmsi_database_commit_tables","msi_enum_db_streams","msi_enum_db_storages","_libmsi_database_close")}
    ctx.need(len(parts)>=4,"writers of the commit not found")
    Explorer(P,F,Guard(ctx,P,parts)).run()
    # 6. a stream or storage of the database is added or replaced only with the bit clear, unless it comes from its own file
    pending(ctx,P)
    ctx.fns([P.fns[n].src for n in guard]+["libmsi_database_commit"])
    ctx.rule("An output container is created and attached only on paths where the read-only bit was tested clear, the bit is never cleared, container writes go only to the attached output, files are removed or moved only when an output was attached, commit reaches its writers only with the bit clear, and a stream or storage is added to or replaced in the database only with the bit clear unless it was read from the database's own file.")
OWN={"gsf_infile_child_by_name","gsf_infile_child_by_index","gsf_infile_child_by_aname","gsf_infile_child_by_vname","gsf_infile_msole_new","gsf_input_dup"}
class Reach(Guard):
    """does any path reach the site with the bit possibly set?"""
    def __init__(s,P,site): Guard.__init__(s,None,P,{}); s.site=site; s.bad=False
    def at(s,X,st,I,n,args,ret): s.see(st,I)
    def store(s,X,st,I,A,v): s.see(st,I)
    def see(s,st,I):
        if I.id==s.site and not s.ro(st): s.bad=True
def ownfile(P,F,o,seen=()):
    """the value was read from the input file of the database"""
    if o[0] in("n","c"): return True
    if o[0]!="i": return False
    I=F.insts[o[1]]
    if I.op=="call" and P.callname(F,I) in OWN:
        k=loadfield(P,F,I.a[0])
        if k and k[1]=="infile": return True
        os=origin(P,F,I.a[0])
        return bool(os) and all(x!=o and x[0]=="i" and x not in seen and (ownfile(P,F,x,seen+(o,)) or (loadfield(P,F,x) or(0,0))[1]=="infile") for x in os)
    return (loadfield(P,F,o) or (0,0))[1]=="infile"
def pending(ctx,P):
    work=[]
    for F in P.fns.values():
        for I in P.insts(F):
            if I.op=="store":
                k=P.fieldkey(F,I.a[1])
                if k and k[0].lstrip('_') in("LibmsiStream","LibmsiStorage") and k[1] in("stm","stg"): work.append((F,I,I.a[0],k[1]))
    ctx.need(len(work)>=3,"the lists of pending streams and storages not found")
    seen=set()
    while work:
        F,I,v,w=work.pop()
        if (F.name,I.id) in seen: continue
        seen.add((F.name,I.id)); ctx.ok(P.loc(I)); ctx.count("pending_sites"); ctx.fns([F.src])
        os=origin(P,F,v)
        if all(ownfile(P,F,o) for o in os): continue
        r=Reach(P,I.id); Explorer(P,F,r).run()
        if not r.bad: continue
        args=[o[1] for o in os if o[0]=="a"]
        cs=P.callers()[F.name]
        if args and cs and F.local or (args and cs and not F.src.startswith("libmsi_")):
            for G,C in cs:
                for a in args: work.append((G,C,C.a[a],w))
            continue
        ctx.find("%s:%s"%(F.src,w),P.loc(I),"a stream or storage of a database opened read-only can be added or replaced here")
class NeedOutput(Events):
    """the effect is reached only after an attached output was closed"""
    calls={"gsf_output_close":None}
    def __init__(s,ctx,P,site,n): s.ctx=ctx;s.P=P;s.site=site;s.n=n
    def at(s,X,st,I,n,args,ret):
        if I.id==s.site:
            s.ctx.ok(s.P.loc(I))
            a=X.fact(st,("a",1))
            if ("call","gsf_output_close") not in (st.rs or ()) and not(a[0]>0 or 0 in a[2]):
                s.ctx.find("%s:%s-without-output"%(X.F.src,n),s.P.loc(I),"%s can be reached on a database that has no output, such as one opened read-only"%n)
