"""Creating, extending and dropping tables: the statements and everything below them (the catalogue, the tables in memory)
are interpreted at the level of bits, starting from an empty database; what the catalogue and the tables then say, read
by the library's own functions, is compared with what the statements name."""
from steps import *
from cmodel import *
from recmodel import *
import re,importlib
World=importlib.import_module("c37").World; DB=("heap","DB")
MINIMUM={"statements":45,"tables read":60}
VALID,KEY,NUL,STR,TEMP,LOC=0x100,0x2000,0x1000,0x800,0x4000,0x200
FAR=["T","U","V"]
def t(kd,key=0,nul=0,tmp=0,loc=0): return ({"s":VALID|2,"l":VALID|4,"t":VALID|STR|72,"b":VALID|STR}[kd]|(KEY if key else 0)|(NUL if nul else 0)|(TEMP if tmp else 0)|(LOC if loc else 0))
ENTRY={"create_view_create","alter_view_create","drop_view_create","msi_create_table","table_view_create","table_view_exists","_libmsi_database_commit_tables"}
A=[("A",t("t",1)),("B",t("s",0,1)),("C",t("l"))]
B=[("K",t("s",1)),("L",t("t",1,0,0,1))]
ONE=[("Only",t("t",1))]
WIDE=[("W%d"%i,t("t" if i%3==0 else "l" if i%3==1 else "s",i==0,i!=0)) for i in range(32)]
def run(ctx):
    P=ctx.prog("libmsi"); W=Tables(ctx,P)
    W.create(); W.refused(); W.many(); W.alter(); W.hold(); W.drop(); W.data()
    ctx.rule("CREATE TABLE, ALTER TABLE and DROP TABLE leave exactly the tables, columns and cells they name; refused ones leave everything as it was; what is committed is that, of permanent tables only.")
class Tables(World):
    def __init__(s,ctx,P):
        World.__init__(s,ctx,P); M=s.M; c=M.calls
        for n in ENTRY: ctx.need(P.fn(n),n+" not found")
        ctx.fns(sorted(ENTRY)); files={P.fn(n).file for n in ENTRY}
        c.pop("_libmsi_open_table",None)
        s.inline={n for n,G in P.fns.items() if G.file in files}|{"msi_alloc_zero","msi_realloc_zero","msi_alloc","msi_realloc","msi_free","msi_column_mask"}
        s.inline&=set(P.fns)
        s.far=False
        def num(ids,i):
            # many strings: the names of tables differ only in what a narrow column does not hold
            if not s.far: return i+1
            t=ids[i]; return 5+0x10000*FAR.index(t) if t in FAR else 6+i+0x10000*(i%3)
        s.num=num
        def add(I,a,m,w):
            if a[1]==("null",0): return C(0)
            t=M.str(m,a[1])
            if t is None: return None
            if not t: return C(0)
            ids=m.setdefault(("ids",),()); w.append((("event","string"),(t,k(a[3]),k(a[4])),I))
            if t not in ids: m[("ids",)]=ids=ids+(t,)
            return C(num(ids,ids.index(t)))
        def lookup(I,a,m,w):
            x=k(a[1]); ids=m.get(("ids",),())
            if x==0: return M.place(m,"",("pool",0))
            if x is None: return None
            i=next((i for i in range(len(ids)) if num(ids,i)==x),None); return M.place(m,ids[i],("pool",x)) if i is not None else ("null",0)
        def ident(I,a,m,w):
            t=M.str(m,a[1]); ids=m.get(("ids",),())
            if t is None: return None
            if not t: m[a[2]]=C(0); return C(0)
            if t not in ids: return C(6)
            m[a[2]]=C(num(ids,ids.index(t))); return C(0)
        c["_libmsi_add_string"]=add; c["msi_string_lookup_id"]=lookup; c["_libmsi_id_from_string_utf8"]=ident
        def nodata(I,a,m,w):
            d=m.get(("stream",),{}).get(s.M.str(m,a[1]))
            if d is None: m[a[2]]=("null",0); m[a[3]]=C(0); return C(6)
            p=M.fresh(I,m,w,[C(x,8) for x in d]); m[a[2]]=p; m[a[3]]=C(len(d)); return C(0)
        c["read_stream_data"]=nodata
        def save(I,a,m,w):
            n=k(a[3]); d=[M.byte(m,(a[2][0],a[2][1]+i)) for i in range(n)] if n is not None and isinstance(a[2],tuple) else None
            w.append((("event","saved"),(M.str(m,a[1]),tuple(k(x) if x is not None else None for x in d) if d is not None else None),I)); return C(0)
        c["write_stream_data"]=save
        def fill(I,a,m,w):
            d,x,n=a[0],k(a[1]),k(a[2])
            if isinstance(d,tuple) and isinstance(d[1],int) and d[1] and x is not None and n is not None and n<=4096:
                for y in [y for y in m if isinstance(y,tuple) and len(y)==2 and y[0]==d[0] and isinstance(y[1],int) and d[1]<=y[1]<d[1]+n]: del m[y]
                for i in range(n): m[(d[0],d[1]+i)]=C(x&255,8)
                w.append((("event","set"),(d,x,n),I)); return d
            return M.c_memset(I,a,m,w)
        for n in [n for n in c if "memset" in n]: c[n]=fill
        # the catalogue, asked in SQL
        def qopen(I,a,m,w):
            t=M.format(m,a[2],a[3:]); t=bytes(x.const() for x in t).decode() if t is not None else None
            g=re.match(r"(?is)\s*SELECT\s+.*?\s+FROM\s+`_Columns`\s+WHERE\s+`Table`\s*=\s*'([^']*)'(?:\s+AND\s+`Name`\s*=\s*'([^']*)')?(?:\s+ORDER\s+BY\s+.*)?\s*$",t or "")
            if not g: s.ctx.need(False,"the catalogue is asked in a way that is not understood: %s"%t)
            q=("query",len(w)); m[("q",q)]=(g.group(1),g.group(2)); m[a[1]]=(q,0); m[(q,0)]=("class",0); return C(0)
        def rows(m,w,q):
            tb,cn=m[("q",q)]; return [r for r in s.catalogue((dict(m),list(w))) or [] if r[0]==tb and (cn is None or r[2]==cn)]
        def fetch(I,a,m,w):
            q=a[0][0]; r=rows(m,w,q); i=m.get(("at",q),0)
            if i>=len(r): return C(0x103)
            m[("at",q)]=i+1; p=("rec","cat",len(w)); v=r[i]
            m[a[1]]=s.RM.put(m,p,[("text",v[0]),("int",v[1]),("text",v[2]),("int",v[3])]); return C(0)
        def execute(I,a,m,w): m.pop(("at",a[0][0]),None); return C(0)
        def iterate(I,a,m,w):
            r=rows(m,w,a[0][0])
            if isinstance(a[2],tuple) and a[2]!=("null",0):
                f=s.P.fn(a[2][0][1]) if isinstance(a[2][0],tuple) and a[2][0][0]=="g" else None
                if not f: return None
                for v in r:
                    p=("rec","cat",len(w)); rec=s.RM.put(m,p,[("text",v[0]),("int",v[1]),("text",v[2]),("int",v[3])]); w.append((("event","asked"),v,I))
                    x,(m2,w2)=s.one(f.name,[rec,a[3]],(m,list(w)),f); m.clear(); m.update(m2); w[:]=w2
                    if k(x)!=0: return x
            return C(0)
        c.update({"_libmsi_query_open":qopen,"_libmsi_query_fetch":fetch,"_libmsi_query_execute":execute,"_libmsi_query_iterate_records":iterate,"_libmsi_query_close":lambda I,a,m,w:C(0)})
        s.ci={f:struct_off(P,"_column_info",f) for f in("table","column","type","temporary","val","next")}
        for f,v in s.ci.items(): ctx.need(v is not None,"field %s of column definitions not found"%f)
        bs=struct_off(P,"_LibmsiDatabase","bytes_per_strref"); s.bs=bs
    def do(s,name,args,st,F=None):
        m,w=st; F=F or s.P.fn(name)
        R=Region(s.P,F,dict(m),s.M.calls,400000,s.hook,s.inline-set(s.M.calls),("c43",F.name,len(w)),True)
        out=R.run(0,{("a",i):C(x,32) if isinstance(x,int) else x for i,x in enumerate(args)},w=list(w))
        s.ctx.stuck(out,F.name,s.P.loc(F.blocks[0].insts[0]))
        return [(v,(e["mem"],w2)) for kd,b,v,e,w2 in out]
    def db(s):
        m,w=World.db(s); m[(DB,s.bs)]=C(2)
        for n,g in s.P.globals.items():
            S=re.match(r"\[\d+ x %struct\.([\w.]+)\]",g.get("t") or ""); f=s.P.structs.get(S.group(1)) if S else None
            if not f or not isinstance(g.get("init"),list) or S.group(1)!="_LibmsiColumnInfo": continue
            z=struct_size(s.P,S.group(1))
            for i,row in enumerate(g["init"]):
                for x,v in zip(f,row):
                    o=i*z+x[1]//8
                    m[(("g",n),o)]=(tuple(v["op"]),0) if isinstance(v,dict) and "op" in v else ("null",0) if x[3].endswith("*") else C(v or 0,x[2])
        return m,w
    def cols(s,st,cols,table=None):
        m=dict(st[0]); base=("heap","cols",len(st[1]),len(m)); prev=("null",0)
        for i,(n,ty) in reversed(list(enumerate(cols))):
            b=(base,i); o=s.ci; b=("heap",base,i)
            m[(b,o["table"])]=("null",0); m[(b,o["column"])]=s.M.place(m,n,("txt",n)); m[(b,o["type"])]=C(ty); m[(b,o["temporary"])]=C(1 if ty&TEMP else 0,8); m[(b,o["val"])]=("null",0); m[(b,o["next"])]=prev; prev=(b,0)
        return prev,(m,st[1])
    # ---- statements: the result and the state after them
    def statement(s,fn,args,st):
        s.ctx.count("statements")
        m=dict(st[0]); m[("OUT",0)]=("null",0)
        v,st=s.one(fn,[(DB,0),("OUT",0)]+args,(m,st[1])); view=st[0].get(("OUT",0))
        if k(v)!=0 or not isinstance(view,tuple) or view==("null",0): return ("prepare",k(v)),st
        r,st=s.call(st,view,"execute",[("null",0)]); v2,st=s.call(st,view,"delete",[])
        return ("execute",k(r)),st
    def CREATE(s,st,name,cols,hold=0):
        n,st=s.text(st,name); c,st=s.cols(st,cols); return s.statement("create_view_create",[n,c,hold],st)
    def ALTER(s,st,name,col=None,hold=0):
        n,st=s.text(st,name); c,st=s.cols(st,[col]) if col else (("null",0),st); return s.statement("alter_view_create",[n,c,hold&0xffffffff],st)
    def DROP(s,st,name):
        n,st=s.text(st,name); return s.statement("drop_view_create",[n],st)
    def ok(s,r): return r==("execute",0)
    # ---- what a table is, read through a view of it
    def table(s,st,name):
        s.ctx.count("tables read")
        n,st=s.text(st,name); m=dict(st[0]); m[("OUT",0)]=("null",0)
        v,st=s.one("table_view_create",[(DB,0),n,("OUT",0)],(m,st[1])); view=st[0].get(("OUT",0))
        if k(v)!=0: return None
        m=dict(st[0]); m[("N",0)]=top(32); m[("M",0)]=top(32); v,st=s.call((m,st[1]),view,"get_dimensions",[("N",0),("M",0)]); n,c=k(st[0].get(("N",0))),k(st[0].get(("M",0)))
        if n is None or c is None: return "of unknown size"
        cols=[]
        for i in range(c):
            m=dict(st[0]); m[("NM",0)]=("null",0); m[("TY",0)]=top(32); m[("TN",0)]=("null",0)
            v,st=s.call((m,st[1]),view,"get_column_info",[i+1,("NM",0),("TY",0),("null",0),("TN",0)])
            cols.append((s.M.str(st[0],st[0][("NM",0)]),k(st[0][("TY",0)]),s.M.str(st[0],st[0][("TN",0)])) if k(v)==0 else None)
        rows=[]
        for i in range(n):
            r=[]
            for j in range(c):
                m=dict(st[0]); m[("V",0)]=top(32); v,st=s.call((m,st[1]),view,"fetch_int",[i,j+1,("V",0)]); r.append(s.value(st,cols[j],k(st[0].get(("V",0)))) if k(v)==0 else "unreadable")
            rows.append(tuple(r))
        return cols,rows
    def value(s,st,col,x):
        if x is None or not col or col[1] is None: return "?"
        if x==0: return None
        if col[1]&STR:
            p=s.M.calls["msi_string_lookup_id"](None,[None,C(x)],dict(st[0]),[]); m=dict(st[0]); p=s.M.calls["msi_string_lookup_id"](None,[None,C(x)],m,[])
            return s.M.str(m,p) if p!=("null",0) else "no text"
        d=x-(0x8000 if col[1]&0xff==2 else NULLI); return d
    def catalogue(s,st):
        c=s.ctx.counts.get("tables read") if hasattr(s.ctx,"counts") else None
        r=s.table(st,"_Columns")
        return r[1] if isinstance(r,tuple) else None
    def saved(s,st):
        """what a commit hands to the container: name -> bytes"""
        v,st2=s.one("_libmsi_database_commit_tables",[(DB,0),C(2 if not s.far else 3)],(dict(st[0]),[]))
        return {n:d for n,d in (x for a,x,I in st2[1] if a==("event","saved"))} if k(v)==0 else None
    def reload(s,st,saved):
        """a new database on what was saved"""
        m,w=s.db(); m[("ids",)]=st[0].get(("ids",),()); m[("stream",)]=dict(saved); m[(DB,s.bs)]=C(3 if s.far else 2)
        st=(m,w)
        for n in saved: x,st=s.text(st,n); v,st=s.one("_libmsi_open_table",[(DB,0),x,0],st)
        return st
    def insert(s,st,name,vals,temporary=0):
        n,st=s.text(st,name); m=dict(st[0]); m[("OUT",0)]=("null",0)
        v,st=s.one("table_view_create",[(DB,0),n,("OUT",0)],(m,st[1])); view=st[0].get(("OUT",0)); m=dict(st[0])
        rec=s.RM.put(m,("rec","new",len(st[1])),[None if x is None else ("text",x) if isinstance(x,str) else ("int",x&0xffffffff) for x in vals])
        v,st=s.call((m,st[1]),view,"insert_row",[rec,0xffffffff,C(temporary,1)])
        if k(v)!=0: s.ctx.need(False,"a row cannot be added to a new table")
        return s.call(st,view,"delete",[])[1]
    # ---- comparison
    def expect(s,st,fn,what,tables,gone=(),temp=(),again=True):
        """tables: name -> (columns, rows)"""
        s.ctx.ok()
        names=list(tables)
        T=s.table(st,"_Tables"); Cc=s.table(st,"_Columns")
        if not isinstance(T,tuple) or not isinstance(Cc,tuple): s.find(fn,"catalogue","%s, the catalogue cannot be read"%what); return
        got=sorted(str(r[0]) for r in T[1]); want=sorted(names)
        if got!=want: s.find(fn,"tables","%s, the tables are %s instead of %s"%(what,got,want))
        want=sorted((n,i+1,c,ty) for n in names if n not in temp for i,(c,ty) in enumerate(tables[n][0]))
        got=sorted(Cc[1],key=str); short=lambda x:(x[3]&0xffff if isinstance(x[3],int) else x[3])
        g=sorted((str(x[0]),x[1],str(x[2]),short(x)) for x in got)
        if g!=want:
            a=[x for x in g if x not in want][:2]; b=[x for x in want if x not in g][:2]
            s.find(fn,"columns","%s, the catalogue of columns has %s instead of %s"%(what,a or "too few",b or "them once"))
        if [x[:2] for x in Cc[1]]!=sorted((x[:2] for x in Cc[1]),key=lambda x:0) : pass
        for n in names:
            cols,rows=tables[n]; r=s.table(st,n)
            if not isinstance(r,tuple): s.find(fn,"table","%s, the table %s cannot be opened"%(what,n)); continue
            gc=[(x[0],x[1]&0xffff,x[2]) if x and x[1] is not None else x for x in r[0]]; wc=[(c,ty,n) for c,ty in cols]
            if gc!=wc: s.find(fn,"shape","%s, the columns of table %s are %s instead of %s"%(what,n,gc[:4],wc[:4])); continue
            if sorted(r[1],key=str)!=sorted(rows,key=str): s.find(fn,"cells","%s, the rows of table %s are %s instead of %s"%(what,n,r[1],rows))
        for n in gone:
            if s.table(st,n) is not None: s.find(fn,"gone","%s, the table %s can still be opened"%(what,n))
            x,st2=s.text(st,n); v,_=s.one("table_view_exists",[(DB,0),x],st2)
            if k(v)!=0: s.find(fn,"exists","%s, the table %s still exists"%(what,n))
        for n in names:
            x,st2=s.text(st,n); v,_=s.one("table_view_exists",[(DB,0),x],st2)
            if k(v) in(0,None): s.find(fn,"missing","%s, the table %s does not exist"%(what,n))
        f=s.M.outside(s.P.fn(fn),st[0],st[1])
        if f: s.find(fn,"room","%s, something is stored outside of its buffer"%what)
        d=[x for a,x,I in st[1] if a==("event","free") and isinstance(x,tuple) and x!=("null",0) and isinstance(x[0],tuple)]
        if len(d)!=len(set(d)): s.find(fn,"freed","%s, something is freed twice"%what)
        S=s.saved(st)
        if S is None: s.find(fn,"commit","%s, the tables cannot be saved"%what); return
        perm=[n for n in names if n not in temp]; wd=3 if s.far else 2
        if "_Tables" not in S or S["_Tables"] is None or len(S["_Tables"])!=wd*len(perm): s.find(fn,"saved:tables","%s, %s tables are saved instead of %d"%(what,len(S.get("_Tables") or ())//wd,len(perm)))
        n=sum(len(tables[x][0]) for x in perm)
        if len(S.get("_Columns") or ())!=(2*wd+4)*n: s.find(fn,"saved:columns","%s, %s columns are saved instead of %d"%(what,len(S.get("_Columns") or ())//(2*wd+4),n))
        for n in names:
            cols,rows=tables[n]; size=sum(wd if ty&STR and ty&0xff else 2 if ty&0xff in(0,2) else 4 for c,ty in cols)*len(rows) if n not in temp else 0
            if len(S.get(n) or ())!=size: s.find(fn,"saved:rows","%s, %s bytes of table %s are saved instead of %d"%(what,len(S.get(n) or ()),n,size))
        for n in S:
            if n not in names and n not in("_Tables","_Columns"): s.find(fn,"saved:other","%s, a table %s is saved"%(what,n))
        if any(d is None or None in d for d in S.values()): s.find(fn,"saved:unknown","%s, what is saved is not decided by the tables"%what); return
        if again:
            s.ctx.count("tables saved and read again",len(perm)); s.expect(s.reload(st,S),fn,what+", saving and reading again",{n:([(c,ty) for c,ty in tables[n][0]],tables[n][1]) for n in perm},list(gone)+list(temp),(),False)
    # ---------------------------------------------------------------- cases
    def create(s):
        for far in(False,True):
            s.far=far; st=s.db(); s.expect(st,"msi_create_table","in a new database",{})
            have={}
            for n,c in(("T",A),("U",B),("V",ONE)):
                r,st=s.CREATE(st,n,c); have[n]=(c,[])
                if not s.ok(r): s.find("create_view_create","refused","creating a table %s of %d columns fails"%(n,len(c))); return
                s.expect(st,"msi_create_table","after creating %s"%", ".join(have),have)
        s.far=False
    def refused(s):
        st=s.db(); r,st=s.CREATE(st,"T",A); st=s.insert(st,"T",["x",1,2]); have={"T":(A,[("x",1,2)])}
        for what,n,c,hold in(("that exists",("T"),B,0),("that exists, to be held","T",B,1),("of the catalogue","_Tables",B,0),("of the catalogue","_Columns",B,0),("of streams","_Streams",B,0),("of storages","_Storages",B,0),
                ("with two columns of a name","U",[A[0],A[1],("A",t("l"))],0),("with two columns of a name","U",[("Z",t("t",1)),("Y",t("s")),("Y",t("s"))],0),
                ("of 33 columns","U",WIDE+[("Extra",t("s"))],0),("with a temporary key and a permanent column","U",[("K",t("s",1,0,1)),("P",t("s"))],0)):
            r,st2=s.CREATE(st,n,c,hold)
            if s.ok(r): s.find("create_view_create","allowed","a table %s can be created"%what); continue
            s.expect(st2,"create_view_create","after the creation of a table %s was refused"%what,have,("U",))
        # a temporary table that is not held is not made
        TT=[("K",t("s",1,0,1)),("P",t("t",0,1,1))]
        r,st2=s.CREATE(st,"U",TT,0)
        if not s.ok(r): s.find("create_view_create","temporary","a temporary table cannot be created")
        else: s.expect(st2,"create_view_create","after creating a temporary table that is not held",have,("U",))
        r,st2=s.CREATE(st,"U",TT,1)
        if not s.ok(r): s.find("create_view_create","temporary","a temporary table cannot be created and held")
        else:
            s.expect(st2,"create_view_create","after creating a temporary table that is held",dict(have,U=(TT,[])),(),("U",))
            st3=s.insert(st2,"U",[3,"y"]); s.expect(st3,"create_view_create","after adding a row to a temporary table",dict(have,U=(TT,[(3,"y")])),(),("U",))
        # only some columns are temporary: a permanent table
        r,st2=s.CREATE(st,"U",[("K",t("s",1)),("P",t("t",0,1,1))],0)
        if not s.ok(r): s.find("create_view_create","temporary","a table with a temporary column cannot be created")
        else: s.expect(st2,"create_view_create","after creating a table with a temporary column",dict(have,U=([("K",t("s",1)),("P",t("t",0,1,1))],[])))
    def many(s):
        st=s.db(); r,st=s.CREATE(st,"Wide",WIDE)
        if not s.ok(r): s.find("create_view_create","wide","a table of 32 columns cannot be created"); return
        s.expect(st,"msi_create_table","after creating a table of 32 columns",{"Wide":(WIDE,[])})
        r,st2=s.ALTER(st,"Wide",("More",t("s",0,1)))
        if s.ok(r): s.find("alter_view_create","many","a 33rd column can be added to a table")
        else: s.expect(st2,"alter_view_create","after a 33rd column was refused",{"Wide":(WIDE,[])})
    def alter(s):
        for far in(False,True):
            s.far=far; st=s.db(); r,st=s.CREATE(st,"T",A); r,st=s.CREATE(st,"U",B)
            for row in(["x",1,-2],["y",None,70000]): st=s.insert(st,"T",row)
            st=s.insert(st,"U",[5,"x"]); have={"T":(A,[("x",1,-2),("y",None,70000)]),"U":(B,[(5,"x")])}
            for c in(("D",t("s",0,1)),("E",t("l",0,1)),("F",t("t",0,1)),("A",t("t",0,1))) if not far else (("E",t("t",0,1)),):
                if c[0]!="A" or True:
                    for hold in((0,1) if not far else (0,)):
                        r,st2=s.ALTER(st,"T",c,hold)
                        if c[0]=="A":
                            if s.ok(r): s.find("alter_view_create","twice","a column can be added under the name of another one")
                            else: s.expect(st2,"alter_view_create","after adding a column of a known name was refused",have)
                            continue
                        if not s.ok(r): s.find("alter_view_create","add","a column cannot be added"); continue
                        cc,rr=have["T"]; now=dict(have,T=(cc+[c],[x+(None,) for x in rr]))
                        s.expect(st2,"alter_view_create","after adding a column of type %#x%s"%(c[1]," that is held" if hold else ""),now)
                        if hold==0 and c[0]=="D":
                            r,st3=s.ALTER(st2,"T",("G",t("t",0,1)))
                            if s.ok(r): s.expect(st3,"alter_view_create","after adding two columns",dict(have,T=(cc+[c,("G",t("t",0,1))],[x+(None,None) for x in rr])))
                            else: s.find("alter_view_create","add","a second column cannot be added")
            r,st2=s.ALTER(st,"None",("D",t("s",0,1)))
            if s.ok(r): s.find("alter_view_create","none","a column can be added to a table that does not exist")
            else: s.expect(st2,"alter_view_create","after altering a table that does not exist",have,("None",))
        s.far=False
    def hold(s):
        # a temporary column is there until it is freed as often as it is held
        st=s.db(); r,st=s.CREATE(st,"T",A); st=s.insert(st,"T",["x",1,2]); r,st=s.ALTER(st,"T",None,1)
        have={"T":(A,[("x",1,2)])}; tc=("Tmp",t("s",0,1,1)); more={"T":(A+[tc],[("x",1,2,None)])}
        if not s.ok(r): s.find("alter_view_create","hold","a table cannot be held"); return
        s.expect(st,"alter_view_create","after holding a table",have)
        for n in(1,2,3):
            r,st2=s.ALTER(st,"T",tc,1)
            for i in range(n-1): r,st2=s.ALTER(st2,"T",None,1)
            s.expect(st2,"alter_view_create","after holding a temporary column %d times"%n,more)
            for i in range(n):
                r,st2=s.ALTER(st2,"T",None,-1)
                s.expect(st2,"alter_view_create","after holding a temporary column %d times and freeing it %d times"%(n,i+1),more if i+1<n else have)
        # a temporary table with rows
        TT=[("K",t("s",1,0,1)),("P",t("t",0,1,1))]
        st=s.db(); r,st=s.CREATE(st,"U",TT,1)
        for n in(1,2):
            st2=st
            for i in range(n): r,st2=s.ALTER(st2,"U",None,1)
            for i in range(n):
                s.expect(st2,"alter_view_create","with a temporary table held %d times and freed %d times"%(n+1,i),{"U":(TT,[])},(),("U",))
                r,st2=s.ALTER(st2,"U",None,-1)
            s.expect(st2,"alter_view_create","with a temporary table held %d times and freed %d times"%(n+1,n),{"U":(TT,[])},(),("U",))
    def data(s):
        # cells of every kind survive being saved and read again
        L=[("A",t("s",1)),("B",t("t",0,1)),("C",t("l",0,1)),("D",t("b",0,1)),("E",t("t",1,0,0,1)),("F",t("s",0,1)),("G",t("l"))]
        rows=[[1,None,None,None,"x",None,0],[-32767,"T",2147483647,None,"A","x"and 32767,-2147483647],[2,"x",65536,None,"y",-1,1],[1,"y",-65536,None,"a longer text",0,32768]]
        for far in(False,True):
            s.far=far; st=s.db(); r,st=s.CREATE(st,"T",L); r,st=s.CREATE(st,"U",ONE); r,st=s.CREATE(st,"V",[("N",t("l",1)),("O",t("l",0,1))])
            if not s.ok(r): s.find("create_view_create","data","a table of numbers cannot be created"); return
            have={"T":(L,[]),"U":(ONE,[]),"V":([("N",t("l",1)),("O",t("l",0,1))],[])}
            for row in rows: st=s.insert(st,"T",row); have["T"][1].append(tuple(row))
            for x in("z","T","b","a longer text"): st=s.insert(st,"U",[x]); have["U"][1].append((x,))
            for x in(3,1,2,256,-256,70000): st=s.insert(st,"V",[x,None if x==2 else -x]); have["V"][1].append((x,None if x==2 else -x))
            s.expect(st,"msi_create_table","after filling three tables",have)
            # temporary rows are not saved, wherever they are
            u=st; 
            for i,row in enumerate(rows):
                x=[100+i]+row[1:]; y=[50+i]+row[1:]
                u=s.insert(u,"T",x,1); 
                if i%2: u=s.insert(u,"T",[-50+i]+row[1:],1)
            S1,S2=s.saved(st),s.saved(u)
            g=s.table(u,"T")
            if not isinstance(g,tuple) or len(g[1])!=len(rows)+len(rows)+len(rows)//2: s.find("table_view_create","temporary:row","temporary rows cannot be read")
            if S1 is None or S2 is None or S1!=S2: s.find("_libmsi_database_commit_tables","temporary:row","what is saved is not the same with and without temporary rows")
            r,st2=s.ALTER(st,"T",("H",t("l",0,1)))
            if s.ok(r): s.expect(st2,"alter_view_create","after adding a column to a table of four rows",dict(have,T=(L+[("H",t("l",0,1))],[x+(None,) for x in have["T"][1]])))
        s.far=False
    def drop(s):
        for far in(False,True):
            s.far=far; st=s.db()
            for n,c in(("T",A),("U",B),("V",ONE)): r,st=s.CREATE(st,n,c)
            st=s.insert(st,"T",["x",1,2]); st=s.insert(st,"U",[5,"x"]); st=s.insert(st,"V",["T"])
            have={"T":(A,[("x",1,2)]),"U":(B,[(5,"x")]),"V":(ONE,[("T",)])}
            for n in have:
                r,st2=s.DROP(st,n); rest={x:y for x,y in have.items() if x!=n}
                if not s.ok(r): s.find("drop_view_create","fails","the table %s cannot be dropped"%n); continue
                s.expect(st2,"drop_view_create","after dropping %s"%n,rest,(n,))
                r,st3=s.CREATE(st2,n,B)
                if not s.ok(r): s.find("drop_view_create","again","a dropped table cannot be created again"); continue
                s.expect(st3,"drop_view_create","after dropping %s and creating it again"%n,dict(rest,**{n:(B,[])}))
            r,st2=s.DROP(st,"None")
            if s.ok(r): s.find("drop_view_create","none","a table that does not exist can be dropped")
            else: s.expect(st2,"drop_view_create","after dropping a table that does not exist",have,("None",))
        s.far=False
