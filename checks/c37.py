"""Streams and storages: every function on the lists of them, and the tables _Streams and _Storages, are interpreted at the
level of bits on databases made by the library's own functions; what a new listing gives is compared with what was done."""
from steps import *
from cmodel import *
from recmodel import *
import re
MINIMUM={"changes":90,"listings":60}
DB=("heap","DB"); MARK="\u4840"
ENTRY={"msi_create_stream","msi_destroy_stream","msi_get_raw_stream","write_raw_stream_data","msi_enum_db_streams","msi_create_storage","msi_destroy_storage","msi_open_storage","msi_enum_db_storages","append_storage_to_db","streams_view_create","storages_view_create","_libmsi_database_open"}
def run(ctx):
    P=ctx.prog("libmsi"); W=World(ctx,P)
    W.streams(); W.storages(); W.views("streams"); W.views("storages"); W.opened(); W.raw()
    ctx.rule("A stream or storage put in a database is listed once under its name with what was put last; removing one removes only it; reading gives it from its start, the database's own before those of transforms; each is held exactly as long as it is listed.")
class Obj(str): pass
class World:
    def __init__(s,ctx,P):
        s.ctx,s.P=ctx,P; s.M=M=CModel(P); s.RM=RM=Records(M); c=M.calls; c.update(RM.calls())
        files={P.fn(n).file for n in ENTRY if P.fn(n)}
        for n in ENTRY: ctx.need(P.fn(n),n+" not found")
        s.inline={n for n,G in P.fns.items() if G.file in files and not n.startswith("msi_destroy_stringtable")}|{"msi_view_get_row","msi_realloc_zero","msi_alloc_zero"}
        s.inline&=set(P.fns)
        ctx.fns(sorted(ENTRY))
        def kill(I,a,m,w):
            p=a[0]
            if isinstance(p,tuple) and p!=("null",0):
                w.append((("event","free"),p,I))
                for x in [x for x in m if isinstance(x,tuple) and x[0]==p[0]]: del m[x]
                m.pop(("zero",p[0]),None)
            return None
        for n in("free","g_free"): c[n]=kill
        def ref(I,a,m,w): w.append((("event","ref"),a[0],I)); return a[0]
        def unref(I,a,m,w): w.append((("event","unref"),a[0],I)); return None
        def newobj(kind):
            def h(I,a,m,w):
                if s.fails==I.callee[1] if isinstance(I.callee,tuple) else False: return ("null",0)
                b=(kind,"new",sum(1 for x in w if x[0]==("event","newobj"))); d=None
                if kind=="mem":
                    n=k(a[1]); d=tuple(k(m.get((a[0][0],a[0][1]+i))) for i in range(n)) if n is not None and isinstance(a[0],tuple) else None
                w.append((("event","newobj"),(b,a[0],d,k(a[1]) if len(a)>1 else None),I)); m[(b,0)]=("class",0); m[("made",b)]=(a[0],d); return (b,0)
            return h
        s.fails=None
        c.update({"g_object_ref":ref,"g_object_unref":unref,"gsf_input_dup":newobj("dup"),"gsf_infile_msole_new":newobj("stg"),"gsf_input_memory_new":newobj("mem"),
            "gsf_input_stdio_new":newobj("file"),"gsf_infile_msole_get_class_id":s.classid,"msi_load_string_table":lambda I,a,m,w:("STR",0),
            "_libmsi_open_table":lambda I,a,m,w:(w.append((("event","table"),M.str(m,a[1]),I)),C(0))[1]})
        def seek(I,a,m,w): w.append((("event","seek"),(a[0],k(a[1]),k(a[2])),I)); return C(0)
        c["gsf_input_seek"]=seek
        dup=c["strdup"]
        def strdup(I,a,m,w):
            if a[0]==("null",0) and I.callee[1]=="strdup": w.append((("event","crash"),None,I)); s.ctx.find("null:%s"%I.fn.src,P.loc(I),"copies a name that may be missing")
            return dup(I,a,m,w)
        c["strdup"]=strdup
        def encode(I,a,m,w):
            t=M.str(m,a[1]); return M.fresh(I,m,w,[C(x,8) for x in ((MARK if k(a[0]) else "")+"<"+t+">").encode()]) if t is not None else None
        def decode(I,a,m,w):
            t=M.str(m,a[0]); return M.fresh(I,m,w,[C(x,8) for x in re.sub(r"^<(.*)>$",r"\1",t).encode()]) if t is not None else None
        c["encode_streamname"]=encode; c["decode_streamname"]=decode
        def add(I,a,m,w):
            t=M.str(m,a[1]); w.append((("event","string"),(t,k(a[3]),k(a[4])),I)); ids=m.setdefault(("ids",),()) 
            if t not in ids: m[("ids",)]=ids=ids+(t,)
            return C(ids.index(t)+1)
        def lookup(I,a,m,w):
            i=k(a[1]); ids=m.get(("ids",),())
            return M.place(m,ids[i-1],("pool",i)) if i and i<=len(ids) else ("null",0)
        c["_libmsi_add_string"]=add; c["msi_string_lookup_id"]=lookup
        def child(I,a,m,w):
            t=M.str(m,a[1]); x=m.get(("child",a[0][0],t))
            if x is None: return ("null",0)
            w.append((("event","newobj"),(x[0],a[0],None,None),I)); return x
        c["gsf_infile_child_by_name"]=child
        def byindex(I,a,m,w):
            x=m.get(("kids",a[0][0]),())[k(a[1])]; w.append((("event","newobj"),(x[0],a[0],None,None),I)); return x
        c["gsf_infile_child_by_index"]=byindex
        c["gsf_infile_num_children"]=lambda I,a,m,w:C(len(m.get(("kids",a[0][0]),())) if a[0][0][0]!="stm" else 0xffffffff)
        c["gsf_input_name"]=lambda I,a,m,w:M.place(m,m[("name",a[0][0])],("nm",a[0][0]))
        c["g_type_check_instance_is_a"]=lambda I,a,m,w:C(0 if a[0][0][0]=="plain" else 1)
        for n in list(P.fns)+["gsf_infile_get_type"]:
            if n.endswith("_get_type"): c[n]=lambda I,a,m,w:C(77,64)
        for n in("g_warn_message","g_log","g_logv","g_return_if_fail_warning"): c[n]=lambda I,a,m,w:None
        s.tables={}
        def own(p,I,n,m):
            if p==("class",0): return C(79,64)
            if p[0]=="DBT": return None
            g=P.globals.get(p[0][1]) if isinstance(p[0],tuple) and p[0][:1]==("g",) else None
            v=g.get("init") if g else None
            if isinstance(v,list) and n is None and isinstance(p[1],int) and p[1]%8==0 and p[1]//8<len(v):
                x=v[p[1]//8]
                if isinstance(x,dict) and "op" in x: return (tuple(x["op"]),0) if x["op"][0]=="g" else ("null",0)
                return ("null",0)
            return None
        M.own=own; s.hook=M.loads
        s.off={f:struct_off(P,"_LibmsiDatabase",f) for f in("strings","flags","tables","transforms","streams","storages","infile","path")}
        for f,v in s.off.items(): ctx.need(v is not None,"field %s of databases not found"%f)
    def classid(s,I,a,m,w):
        for i,x in enumerate(s.clsid): m[(a[1][0],a[1][1]+i)]=C(x,8)
        return C(1)
    def do(s,name,args,st,F=None):
        m,w=st; F=F or s.P.fn(name)
        R=Region(s.P,F,dict(m),s.M.calls,60000,s.hook,s.inline-set(s.M.calls),("c37",F.name,len(w)),True)
        out=R.run(0,{("a",i):C(x,32) if isinstance(x,int) else x for i,x in enumerate(args)},w=list(w))
        s.ctx.stuck(out,F.name,s.P.loc(F.blocks[0].insts[0]))
        return [(v,(e["mem"],w2)) for kd,b,v,e,w2 in out]
    def one(s,name,args,st,F=None):
        r=s.do(name,args,st,F); n=(F.name if F else name)
        if len(r)!=1: s.find(n,"undecided","%s is not decided by its arguments and the database"%n)
        return r[0] if r else (None,st)
    def find(s,name,key,what):
        F=s.P.fn(name); s.ctx.find("%s:%s"%(name,key),s.P.loc(F.blocks[0].insts[0]),what)
    # ---- databases
    def db(s,flags=0):
        m={}; o=s.off
        for f in("tables","transforms","streams","storages"): m[(DB,o[f])]=(DB,o[f]); m[(DB,o[f]+8)]=(DB,o[f])
        m[(DB,0)]=("class",0); m[(DB,o["strings"])]=("STR",0); m[(DB,o["infile"])]=("null",0); m[(DB,o["flags"])]=C(flags); m[(DB,o["path"])]=s.M.place(m,"/p",("txt","/p"))
        return m,[]
    def obj(s,st,p,name=None):
        m=dict(st[0]); m[(p,0)]=("class",0)
        if name is not None: m[("name",p)]=name
        return (p,0),(m,st[1])
    def text(s,st,t):
        m=dict(st[0]); p=s.M.place(m,t,("txt",t)); return p,(m,st[1])
    def put(s,st,kind,name,x):
        """puts a stream or storage into the database"""
        n,st=s.text(st,name); p,st=s.obj(st,x)
        v,st=s.one("msi_create_stream" if kind=="streams" else "msi_create_storage",[(DB,0),n,p],st)
        return k(v),st
    def ops(s,st,view,slot):
        i=[x[0] for x in s.P.structs["_LibmsiViewOps"]].index(slot); m=st[0]; t=m.get((view[0],view[1]))
        v=s.P.globals.get(t[0][1],{}).get("init") if isinstance(t,tuple) and isinstance(t[0],tuple) and t[0][:1]==("g",) else None
        if not isinstance(v,list): s.ctx.need(False,"operations of a view are not a constant table")
        x=v[i]; return s.P.fn(x["op"][1]) if isinstance(x,dict) and "op" in x and x["op"][0]=="g" else None
    def view(s,st,kind):
        m=dict(st[0]); m[("OUT",0)]=("null",0)
        v,st=s.one(kind+"_view_create",[(DB,0),("OUT",0)],(m,st[1]))
        return k(v),st[0].get(("OUT",0)),st
    def call(s,st,view,slot,args): return s.one(None,[view]+args,st,s.ops(st,view,slot))
    def listing(s,st,kind,view=None):
        """what the table of streams (storages) lists: (name, stream) per row; None: fails"""
        s.ctx.count("listings"); own=view is None
        if own:
            r,view,st=s.view(st,kind)
            if r!=0: return None,st
        m=dict(st[0]); m[("N",0)]=top(32); m[("M",0)]=top(32)
        v,st=s.call((m,st[1]),view,"get_dimensions",[("N",0),("M",0)]); n=k(st[0].get(("N",0)))
        if k(v)!=0 or n is None or k(st[0].get(("M",0)))!=2: s.find(kind+"_view_create","size","the table of %s has no known number of rows or not two columns"%kind); return None,st
        out=[]
        for i in range(n):
            m=dict(st[0]); m[("V",0)]=top(32); v,st=s.call((m,st[1]),view,"fetch_int",[i,1,("V",0)]); x=k(st[0].get(("V",0))); ids=st[0].get(("ids",),())
            nm=ids[x-1] if k(v)==0 and x and x<=len(ids) else None; data=None
            if kind=="streams":
                m=dict(st[0]); m[("S",0)]=("null",0); n0=len(st[1]); v,st=s.call((m,st[1]),view,"fetch_stream",[i,2,("S",0)]); data=st[0].get(("S",0)) if k(v)==0 else None
                if data is not None:
                    if sum(1 for a,x,I in st[1][n0:] if a==("event","ref") and x==data)-sum(1 for a,x,I in st[1][n0:] if a==("event","unref") and x==data)!=1: s.find(kind+"_view_create","fetch:held","a stream that is fetched is not held once more")
                    st=(st[0],st[1]+[(("event","unref"),data,None)])
            out.append((nm,data[0] if isinstance(data,tuple) else None))
        m=dict(st[0]); m[("V",0)]=top(32); v,st2=s.call((m,st[1]),view,"fetch_int",[n,1,("V",0)])
        if k(v)==0: s.find(kind+"_view_create","beyond","the table of %s gives a row beyond its last"%kind)
        if own:
            v,st=s.call(st,view,"delete",[])
        return out,st
    def held(s,st,p,base):
        b=p[0] if isinstance(p,tuple) and len(p)==2 and p[1]==0 else p
        made=sum(1 for a,v,I in st[1] if a==("event","newobj") and v[0]==b)
        return base+made+sum(1 for a,v,I in st[1] if a==("event","ref") and isinstance(v,tuple) and v[0]==b)-sum(1 for a,v,I in st[1] if a==("event","unref") and isinstance(v,tuple) and v[0]==b)
    def storage(s,st,name):
        """what is held as the storage of a name, as the enumeration of storages gives it"""
        m,w=st; seen=[]
        def cb(I,a,m,w): seen.append((s.M.str(m,a[0]),a[1])); return C(0)
        s.M.calls["?"]=cb
        try: v,_=s.one("msi_enum_db_storages",[(DB,0),(("cb",),0),("null",0)],(dict(m),list(w)))
        finally: del s.M.calls["?"]
        return seen,k(v)
    def enum(s,st,kind,fail=None):
        m,w=st; seen=[]
        def cb(I,a,m,w): seen.append((s.M.str(m,a[0]),a[1][0] if isinstance(a[1],tuple) else None,a[2])); return C(9 if fail==len(seen) else 0)
        s.M.calls["?"]=cb
        try: v,_=s.one("msi_enum_db_"+kind,[(DB,0),(("cb",),0),("OPQ",0)],(dict(m),list(w)))
        finally: del s.M.calls["?"]
        return seen,k(v)
    def build(s,kind,names):
        st=s.db(); have=[]
        for i,n in enumerate(names):
            r,st=s.put(st,kind,n,("stm",kind,i)); have.append((n,("stm",kind,i)))
        return st,have
    def same(s,st,kind,want,fn,what,order=True):
        """the database lists exactly what it should; each is held once for being listed"""
        s.ctx.ok()
        got,st2=s.listing(st,kind)
        if got is None: s.find(fn,"list","%s, the %s cannot be listed"%(what,kind)); return
        if kind=="streams": g=[x for x in got]; ww=[(n,x) for n,x in want]
        else: g=[x[0] for x in got]; ww=[n for n,x in want]
        if (g!=ww) if order else sorted(map(str,g))!=sorted(map(str,ww)): s.find(fn,"list","%s, the %s listed are %s instead of %s"%(what,kind,[s.show(x) for x in g],[s.show(x) for x in ww])); return
        seen,r=s.enum(st,kind)
        if r!=0 or any(x[2]!=("OPQ",0) for x in seen): s.find("msi_enum_db_"+kind,"walk","%s, the %s cannot be enumerated"%(what,kind))
        enc=lambda n:"<%s>"%n if kind=="streams" else n
        if sorted(x[0] or "" for x in seen)!=sorted(enc(n) for n,x in want): s.find(fn,"names","%s, the %s are stored under the names %s instead of %s"%(what,kind,sorted(x[0] or "?" for x in seen),sorted(enc(n) for n,x in want)))
        for x in seen:
            w=[y for n,y in want if enc(n)==x[0]]
            if kind=="storages" and w:
                mk=st[0].get(("made",x[1])); src=mk[0][0] if mk and isinstance(mk[0],tuple) else x[1]
                if src!=w[0]: s.find(fn,"data","%s, the storage %s has other contents than those put in"%(what,x[0]))
            if kind=="streams" and w and x[1]!=w[0]: s.find(fn,"data","%s, the stream %s has other contents than those put in"%(what,x[0]))
        base={}
        for a,v,I in st[1]:
            if a[0]=="event" and a[1] in("ref","unref") and isinstance(v,tuple): base[v[0]]=0
            if a==("event","newobj"): base[v[0]]=0
        lst=[x[1] for x in seen]
        for b in base:
            if b[0] not in("stm","stg"): continue
            n=s.held(st,b,0)
            if n<lst.count(b): s.find(fn,"held","%s, what is listed is no longer held"%what)
            if n>lst.count(b): s.find(fn,"released","%s, what is not listed any more is still held"%what)
    def show(s,x): return x if not isinstance(x,tuple) else "%s (%s)"%(x[0],"another one" if x[1] is None else "/".join(map(str,x[1])))
    # ---- lists of streams and storages
    def lists(s,kind):
        create="msi_create_stream" if kind=="streams" else "msi_create_storage"; destroy=create.replace("create","destroy")
        for names in([],["A"],["Ab","A"],["A","Ab","B"]):
            for n in["A","B","C","Ab","a",""]:
                st,have=s.build(kind,names); s.ctx.count("changes")
                r,st=s.put(st,kind,n,("stm","new")); what="after putting %s into a database with %s"%(n or "an empty name",", ".join(names) or "none")
                if r!=0: s.find(create,"fails","%s fails"%what); continue
                want=[(x,("stm","new") if x==n else y) for x,y in have]+([(n,("stm","new"))] if n not in names else [])
                s.same(st,kind,want,create,what)
            for n in["A","Ab","B","D"]:
                st,have=s.build(kind,names); p,st=s.text(st,"<%s>"%n if kind=="streams" else n); s.ctx.count("changes")
                v,st=s.one(destroy,[(DB,0),p],st)
                s.same(st,kind,[x for x in have if x[0]!=n],destroy,"after removing %s from a database with %s"%(n,", ".join(names) or "none"))
            for i in range(len(names)+1):
                st,have=s.build(kind,names); seen,r=s.enum(st,kind,i+1)
                if i<len(names) and (r!=9 or len(seen)!=i+1): s.find("msi_enum_db_"+kind,"failure","a failure for one of the %s does not end their enumeration with that failure"%kind)
                s.ctx.ok()
        # read-only databases stay as they are
        st,have=s.build(kind,["A"]); m=dict(st[0]); ro=s.P.enum("LIBMSI_DB_FLAGS_READONLY"); m[(DB,s.off["flags"])]=C(ro)
        for n in("A","B"):
            r,st2=s.put((m,st[1]),kind,n,("stm","new"))
            if r==0: s.find(create,"readonly","putting %s into a read-only database succeeds"%kind)
            s.same(st2,kind,have,create,"after putting %s into a read-only database"%n)
    def streams(s):
        s.lists("streams")
        for names in([],["A"],["A","B","C"]):
            for n in("A","B","D"):
                for data in(b"",b"xyz"):
                    st,have=s.build("streams",names); p,st=s.text(st,"<%s>"%n); m=dict(st[0])
                    for i,x in enumerate(data): m[("DATA",i)]=C(x,8)
                    m[("OUT",0)]=("null",0); s.ctx.count("changes")
                    v,st=s.one("write_raw_stream_data",[(DB,0),p,("DATA",0) if data else ("null",0),len(data),("OUT",0)],(m,st[1])); o=st[0].get(("OUT",0))
                    what="after writing %d bytes to %s in a database with %s"%(len(data),n,", ".join(names) or "none")
                    mk=st[0].get(("made",o[0])) if isinstance(o,tuple) else None
                    if k(v)!=0 or not mk: s.find("write_raw_stream_data","fails","%s, no stream is returned"%what); continue
                    if mk[1]!=tuple(data): s.find("write_raw_stream_data","data","%s, the stream does not have those bytes"%what)
                    s.same(st,"streams",[x for x in have if x[0]!=n]+[(n,o[0])],"write_raw_stream_data",what,order=False)
    def storages(s):
        s.lists("storages")
        for n in("A","B","C"):
            st,have=s.build("storages",["A","B"]); s.fails="gsf_infile_msole_new"; r,st=s.put(st,"storages",n,("stm","new")); s.fails=None
            if r==0: s.find("msi_create_storage","unreadable","putting data that is no storage succeeds")
            s.same(st,"storages",have,"msi_create_storage","after putting data that is no storage as %s"%n)
    # ---- the tables
    def record(s,st,name,data):
        m=dict(st[0]); p=s.RM.put(m,("REC",len(st[1])),[("text",name) if name is not None else None,("stream",(data,0)) if data is not None else None]); m[(data,0)]=("class",0); return p,(m,st[1])
    def views(s,kind):
        real=s.M.calls["_libmsi_record_get_gsf_input"]
        def get(I,a,m,w):
            r=real(I,a,m,w)
            if k(r)==0: w.append((("event","ref"),m[a[2]],I))
            return r
        s.M.calls["_libmsi_record_get_gsf_input"]=get
        try: s.views1(kind)
        finally: s.M.calls["_libmsi_record_get_gsf_input"]=real
    def views1(s,kind):
        fn=kind+"_view_create"
        for names in([],["A"],["A","B"],["A","B","C"]):
            st0,have=s.build(kind,names)
            def each():
                r,v,st=s.view(st0,kind)
                if r!=0: s.find(fn,"fails","the table of %s cannot be opened"%kind)
                return v,st
            def done(st,v,slot,want,what,order=True):
                r,st=s.call(st,v,"delete",[]); s.same(st,kind,want,fn,what,order)
                for a,x,I in st[1]:
                    if a==("event","string") and x[2]!=s.P.enum("StringNonPersistent"): s.find(fn,"string","listing the %s leaves their names among the strings that are saved"%kind); break
            v,st=each()
            if v is None: continue
            done(st,v,None,have,"after listing them")
            # columns
            for n in(0,1,2,3):
                v,st=each(); m=dict(st[0])
                for x in("CN","CT"): m[(x,0)]=("null",0)
                m[("CY",0)]=top(32); m[("CB",0)]=top(8)
                r,st=s.call((m,st[1]),v,"get_column_info",[n,("CN",0),("CY",0),("CB",0),("CT",0)]); s.ctx.ok(); g=lambda x:s.M.str(st[0],st[0].get((x,0))) if isinstance(st[0].get((x,0)),tuple) else None
                if n in(1,2):
                    ty=k(st[0].get(("CY",0)))
                    if k(r)!=0 or g("CN")!=("Name","Data")[n-1] or g("CT")!="_"+kind.capitalize() or k(st[0].get(("CB",0)))!=0 or ty is None: s.find(fn,"columns","column %d of the table of %s is not %s"%(n,kind,("Name","Data")[n-1]))
                    elif n==1 and not(ty&0x800 and ty&0xff==62): s.find(fn,"type","the names of %s are not texts of at most 62 characters"%kind)
                elif k(r)==0: s.find(fn,"columns","the table of %s has a column %d"%(kind,n))
            # insert: a new name, an existing name, no name, no data
            for n,data,temp in(("N",("stm","new"),0),("N",("stm","new"),1),("A",("stm","new"),0),("B",("stm","new"),0),(None,("stm","new"),0),("N",None,0)):
                for at in[0xffffffff]+list(range(len(names)+1)):
                    if at!=0xffffffff and (n!="N" or temp): continue
                    v,st=each(); rec,st=s.record(st,n,data); s.ctx.count("changes")
                    r,st=s.call(st,v,"insert_row",[rec,at,temp]); ok=n is not None and data is not None
                    what="after inserting %s into a table of %s with %s"%("a row without %s"%("data" if data is None else "name") if not ok else n,kind,", ".join(names) or "none")
                    if (k(r)==0)!=ok: s.find(fn,"insert","%s, inserting %s"%(what,"succeeds" if not ok else "fails"))
                    # the same statement goes on with the rows there are now
                    if not ok:
                        l,st=s.listing(st,kind,v)
                        if l is not None and [x[0] for x in l]!=names: s.find(fn,"undo","%s, its rows are %s although it failed"%(what,[x[0] for x in l]))
                    want=[(x,data if x==n else y) for x,y in have]+([(n,data)] if n not in names else []) if ok else have
                    done(st,v,"insert_row",want,what)
            for i in range(len(names)):
                for mask in(1,2,3):
                    v,st=each(); rec,st=s.record(st,"X",("stm","new")); s.ctx.count("changes")
                    r,st=s.call(st,v,"set_row",[i,rec,mask]); ren=mask&1
                    if not ren and k(r)!=0: s.find(fn,"update","giving %s of the table of %s new data fails"%(names[i],kind))
                    if ren and k(r)==0: continue      # renaming is not supported; if it comes to be, what it does is not said here
                    done(st,v,"set_row",[(x,("stm","new") if j==i and not ren else y) for j,(x,y) in enumerate(have)],"after changing row %d of a table of %s with %s"%(i+1,kind,", ".join(names)))
                v,st=each(); s.ctx.count("changes"); r,st=s.call(st,v,"delete_row",[i])
                if k(r)!=0: s.find(fn,"delete","deleting a row of the table of %s fails"%kind)
                l,st=s.listing(st,kind,v); rest=[x for j,x in enumerate(have) if j!=i]
                if l is not None and [x[0] for x in l]!=[x[0] for x in rest]: s.find(fn,"delete:rows","after deleting row %d of %s, the rows left are %s"%(i+1,", ".join(names),[x[0] for x in l]))
                done(st,v,"delete_row",rest,"after deleting row %d of a table of %s with %s"%(i+1,kind,", ".join(names)))
            n=len(names)
            v,st=each(); r,st=s.call(st,v,"delete_row",[n])
            if k(r)==0: s.find(fn,"delete:beyond","deleting a row beyond the last succeeds")
            done(st,v,"delete_row",have,"after deleting a row beyond the last")
            # several changes by one statement
            if n>1:
                v,st=each()
                for i in range(n-1,-1,-1): r,st=s.call(st,v,"delete_row",[i])
                done(st,v,"delete_row",[],"after deleting all rows of a table of %s"%kind)
            v,st=each(); add=[]
            for i in range(4):
                rec,st=s.record(st,"N%d"%i,("stm","new",i)); r,st=s.call(st,v,"insert_row",[rec,0xffffffff,0]); add.append(("N%d"%i,("stm","new",i)))
            l,st=s.listing(st,kind,v)
            if l is not None and [x[0] for x in l]!=names+[x[0] for x in add]: s.find(fn,"insert:rows","after inserting four rows, the rows are %s"%[x[0] for x in l])
            done(st,v,"insert_row",have+add,"after inserting four rows into a table of %s"%kind)
    # ---- what a file has
    def opened(s):
        g=s.P.globals; F=s.P.fn("_libmsi_database_open")
        c=[x for x in g if x in("clsid_msi_database","clsid_msi_patch")]
        def bytesof(n):
            return [k(x) for x in(s.M.byte({},(("g",n),i)) for i in range(16))]
        for cls in c or [None]:
            s.clsid=bytesof(cls) if cls else [0]*16
            s.ctx.need(all(isinstance(x,int) for x in s.clsid),"the class of databases is not known")
            kids=[("stm",MARK+"<!T>"),("stm","<One>"),("plain","<Two>"),("stg","Sub"),("stm",MARK+"<_StringPool>"),("stm",MARK+"<_StringData>"),("stm",MARK+"<Tab>"),("stg","Sub2"),("stm","\u0005SummaryInformation"),("stm","<T\u4840>"),("stm","\u4800Q"),("plain",MARK+"<Last>")]
            st=s.db(); m=dict(st[0]); root=("stg","new",1)
            objs=[]
            for i,(kd,n) in enumerate(kids):
                b=(kd,"kid",i); objs.append((b,0)); m[(b,0)]=("class",0); m[("name",b)]=n
            # the container comes to be by gsf_infile_msole_new
            old=s.M.calls["gsf_infile_msole_new"]
            def new(I,a,m,w):
                r=old(I,a,m,w); m[("kids",r[0])]=tuple(objs)
                for o in objs: m[("child",r[0],m[("name",o[0])])]=o
                return r
            s.M.calls["gsf_infile_msole_new"]=new
            try: v,st=s.one("_libmsi_database_open",[(DB,0)],(m,st[1]))
            finally: s.M.calls["gsf_infile_msole_new"]=old
            s.ctx.ok(); s.ctx.count("changes")
            if k(v)!=0: s.find("_libmsi_database_open","fails","a database with streams, storages and tables cannot be opened"); continue
            l,_=s.listing(st,"streams"); want=[("One",("stm","kid",1)),("Two",("plain","kid",2)),("\u0005SummaryInformation",("stm","kid",8)),("T\u4840",("stm","kid",9)),("\u4800Q",("stm","kid",10))]
            if l!=want: s.find("_libmsi_database_open","streams","the streams of an opened file are listed as %s instead of %s"%([x[0] for x in l] if l is not None else None,[x[0] for x in want]))
            seen,r=s.enum(st,"storages")
            if [(x[0],x[1]) for x in seen]!=[("Sub",("stg","kid",3)),("Sub2",("stg","kid",7))]: s.find("_libmsi_database_open","storages","the storages of an opened file are %s instead of Sub and Sub2"%[x[0] for x in seen])
            t=[x[0] for x in [(v,) for a,v,I in st[1] if a==("event","table")]]
            if sorted(map(str,t))!=["!T","Last","Tab"]: s.find("_libmsi_database_open","tables","the tables of an opened file are %s instead of !T, Last and Tab"%t)
            for i,(kd,n) in enumerate(kids):
                h=s.held(st,objs[i],0)
                if (n in("<One>","<Two>","Sub","Sub2","\u0005SummaryInformation","<T\u4840>")) and h<1: s.find("_libmsi_database_open","held","%s of an opened file is not held"%n)
    def raw(s):
        st,have=s.build("streams",["A","B"]); tr=[]
        for i in range(2):
            p,st=s.obj(st,("stg","tr",i)); v,st=s.one("append_storage_to_db",[(DB,0),p],st)
            if s.held(st,("stg","tr",i),0)!=1: s.find("append_storage_to_db","held","a transform is not held once")
        m=dict(st[0])
        for i,ns in((0,"AXY"),(1,"BYZ")):
            for n in ns: b=("stm","in%d"%i,n); m[("child",("stg","tr",i),"<%s>"%n)]=(b,0); m[(b,0)]=("class",0)
        for n,want in(("A",("own",("stm","streams",0))),("B",("own",("stm","streams",1))),("X",("stm","in0","X")),("Y",("stm","in1","Y")),("Z",("stm","in1","Z")),("Q",None)):
            p,st2=s.text((m,st[1]),"<%s>"%n); m2=dict(st2[0]); m2[("OUT",0)]=("null",0); s.ctx.ok(); s.ctx.count("changes")
            v,st2=s.one("msi_get_raw_stream",[(DB,0),p,("OUT",0)],(m2,st2[1])); o=st2[0].get(("OUT",0)); o=o[0] if isinstance(o,tuple) else None
            if want is None:
                if k(v)==0: s.find("msi_get_raw_stream","missing","reading a stream that is not there succeeds")
                continue
            if k(v)!=0: s.find("msi_get_raw_stream","fails","reading stream %s fails"%n); continue
            if want[0]=="own":
                mk=st2[0].get(("made",o))
                if not mk or mk[0]!=(want[1],0): s.find("msi_get_raw_stream","own","reading stream %s gives another stream"%n)
                elif [x[1:] for x in events(st2[1],"seek") if x[0]==(o,0)][-1:]!=[(0,1)]: s.find("msi_get_raw_stream","start","a stream is not read from its start")
                if s.held(st2,o,0)!=1: s.find("msi_get_raw_stream","held","the stream that is read is not held once")
            elif o!=want: s.find("msi_get_raw_stream","transform","reading stream %s of the transforms gives %s"%(n,o))
