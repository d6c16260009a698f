"""Transforms: the rows of a transform are decoded and applied, interpreted at the level of bits for schemas and rows of
every kind, and compared with the documented format; truncated and malformed data are never read beyond their end."""
from steps import *
from cmodel import *
from bits import root
import itertools
MINIMUM={"transform rows":150,"truncated transforms":150,"streams":40,"keys looked for":30}
VALID,KEY,NUL,STR=0x100,0x2000,0x1000,0x800
NULLI=0x80000000
def t(kd,key=0,nul=0): return {"s":VALID|2,"l":VALID|4,"t":VALID|STR|72,"b":VALID|STR}[kd]|(KEY if key else 0)|(NUL if nul else 0)
SCHEMAS={
 "keyed by text":("T",[t("t",1),t("s"),t("l"),t("t"),t("b",0,1)]),
 "keyed by number":("T",[t("s",1),t("t",0,1),t("s",0,1)]),
 "keyed by long":("T",[t("l",1),t("t",1),t("l",0,1),t("b",0,1),t("s")]),
 "with a late key":("T",[t("t",1),t("t",0,1),t("s",1),t("l")]),
 "of keys only":("T",[t("t",1),t("t",1)]),
 "of 32 columns":("T",[t("t",1)]+[t("s",0,1),t("t")]*15+[t("s")]),
 "_Tables":("_Tables",[t("t",1)]),
}
COLUMNS=("_Columns",[t("t",1),t("s",1),t("t"),t("s")])
TEXT={1:"alpha",2:"beta",3:"gamma",0x0201:"delta",0x010203:"epsilon",0xfffe:"zeta"}
VALUES={"s":(0x8001,0x7fff,0xffff,1,0x8000),"l":(0x80000001,0x7fffffff,0xffffffff,1,0x80000000),"t":(1,2,0x0201,3,0xfffe),"b":(1,)}
def kind(ty):
    if ty&~NUL&~KEY==STR|VALID: return "b"
    return "t" if ty&STR else "l" if ty&0xff==4 else "s"
def width(ty,w): return {"b":2,"t":w,"l":4,"s":2}[kind(ty)]
def enc(cols,mask,vals,w):
    """bytes of a row, and the fields it gives"""
    out=list(mask.to_bytes(2,"little")); f={}
    for i,ty in enumerate(cols):
        if mask&1:
            if i>=mask>>8: break
        elif not ty&KEY and not mask>>i&1: continue
        v=vals[i]; out+=list(v.to_bytes(width(ty,w),"little")); kd=kind(ty)
        if not v: continue
        if kd=="t":
            if v in TEXT: f[i+1]=("text",TEXT[v])
        elif kd=="b": f[i+1]=("stream",None)
        else: f[i+1]=("int",(v-(0x8000 if kd=="s" else NULLI))&0xffffffff)
    return out,f
def run(ctx):
    P=ctx.prog("libmsi")
    A=Tr(ctx,P); A.rows(); A.columns(); A.truncated(); A.found(); A.order()
    ctx.rule("A row of a transform is decoded as its mask and the columns of its table say; it deletes, changes or adds the row with its key accordingly, and nothing else; data that end early are not read beyond their end; _Tables is applied before _Columns, and both before every other table.")
class Tr:
    def __init__(s,ctx,P):
        s.ctx,s.P=ctx,P
        F=ctx.need(P.fn("msi_table_load_transform"),"msi_table_load_transform not found")
        s.fns={n for n,G in P.fns.items() if G.file==F.file}
        s.F=F; s.loc=P.loc(F.blocks[0].insts[0]); ctx.fns(["msi_table_load_transform","msi_get_transform_record"])
    def field(s,p):
        """(base object, element, field name) of an address"""
        if not isinstance(p,tuple) or p[1]!=0 or not isinstance(p[0],tuple) or len(p[0])!=4 or p[0][1]!="f": return None
        q=p[0][0]; i=0; nm=p[0][3]
        while isinstance(q[0],tuple) and len(q[0])==4 and q[0][1]=="f": q=q[0][0]
        if isinstance(q[0],tuple) and len(q[0])==3 and q[0][1]=="at": i=q[0][2]; q=q[0][0]
        return q[0],i,nm
    def go(s,name,cols,data,w,found=(),fail=False,limit=200000):
        M=CModel(s.P); m={}; over=[]
        M.place(m,name,"NAME"); m[(("OUT",0))]=("null",0)
        for i,x in TEXT.items(): M.place(m,x,"TEXT%d"%i)
        ev=lambda w_,n,v,I:w_.append((("event",n),v,I))
        def own(p,I,n,mm):
            b=p[0]
            if b=="RAW" and n and isinstance(p[1],int):
                out=[]
                for j in range(n//8):
                    if not 0<=p[1]+j<len(data): over.append((p[1]+j,I)); return C(0,n)
                    out+=C(data[p[1]+j],8).b
                return V(out)
            r=root(p)
            if r=="TR" and not n: return ("NAME",0)
            g=s.field(p)
            if g is None: return None
            if g[0]=="TV":
                if g[2]=="columns": return ("COLS",0)
                if g[2]=="num_cols": return C(len(cols),n)
                if g[2]=="db": return ("DB",0)
                return None
            if g[0]=="COLS":
                if g[2]=="type":
                    if not 0<=g[1]<len(cols): over.append((g[1],I)); return C(0,n)
                    return C(cols[g[1]],n)
            return None
        def fields(mm,rec): return tuple(sorted((x[1][1],v) for x,v in mm.items() if x[0]=="fld" and x[1][0]==rec and v is not None))
        def new(I,a,mm,w_):
            r=("rec",I.id,sum(1 for x in w_ if x[0]==("event","record"))); ev(w_,"record",(r,k(a[0])),I); return (r,0)
        def fset(mm,rec,i,v): mm[("fld",(rec[0],k(i)))]=v
        def set_int(I,a,mm,w_): fset(mm,a[0],a[1],None if k(a[2])==NULLI else ("int",k(a[2]))); return C(1)
        def set_string(I,a,mm,w_): fset(mm,a[0],a[1],("text",M.str(mm,a[2])) if a[2]!=("null",0) else None); return C(1)
        def set_stream(I,a,mm,w_): fset(mm,a[0],a[1],("stream",None)); ev(w_,"stream",(k(a[1]),a[2]),I); return C(0)
        def get_int(I,a,mm,w_):
            v=mm.get(("fld",(a[0][0],k(a[1])))); return C(v[1]) if v and v[0]=="int" else C(NULLI)
        def get_str(I,a,mm,w_):
            v=mm.get(("fld",(a[0][0],k(a[1]))))
            if not v or v[0]!="text": return ("null",0)
            return M.place(mm,v[1],("txt",v[1]))
        def lookup(I,a,mm,w_):
            x=k(a[1]); return ("TEXT%d"%x,0) if x in TEXT else ("null",0)
        def read(I,a,mm,w_): mm[a[2]]=("RAW",0) if data else ("null",0); mm[a[3]]=C(len(data or ())); return C(0)
        def create(I,a,mm,w_):
            if M.str(mm,a[1])!=name: ev(w_,"table",M.str(mm,a[1]),I)
            mm[a[2]]=("TV",0); return C(0)
        def find(I,a,mm,w_):
            i=sum(1 for x in w_ if x[0]==("event","find")); ev(w_,"find",fields(mm,a[1][0]),I)
            if i<len(found) and found[i]: mm[a[2]]=C(40+i); return C(0)
            return C(7)
        def res(): return C(7) if fail else C(0)
        def delete(I,a,mm,w_): ev(w_,"row",("delete",k(a[1])),I); return res()
        def setrow(I,a,mm,w_): ev(w_,"row",("set",k(a[1]),fields(mm,a[2][0]),k(a[3])),I); return res()
        def insert(I,a,mm,w_): ev(w_,"row",("insert",fields(mm,a[1][0]),k(a[2]),k(a[3])),I); return res()
        def encname(I,a,mm,w_):
            mm[a[2]]=("ENC",0); ev(w_,"name",fields(mm,a[1][0]),I); return C(0)
        def child(I,a,mm,w_): ev(w_,"child",(a[0],a[1]),I); return ("STM",0)
        def update(I,a,mm,w_): ev(w_,"update",M.str(mm,a[1]),I); return None
        nop=lambda I,a,mm,w_:None
        calls={"libmsi_record_new":new,"libmsi_record_set_int":set_int,"libmsi_record_set_string":set_string,"_libmsi_record_set_gsf_input":set_stream,
            "libmsi_record_get_int":get_int,"_libmsi_record_get_string_raw":get_str,"libmsi_record_get_string":get_str,"msi_string_lookup_id":lookup,"read_stream_data":read,"table_view_create":create,
            "_LibmsiViewOps->execute":lambda I,a,mm,w_:C(0),"_LibmsiViewOps->delete":lambda I,a,mm,w_:C(0),"msi_table_find_row":find,
            "table_view_delete_row":delete,"table_view_set_row":setrow,"table_view_insert_row":insert,"_LibmsiViewOps->delete_row":delete,"_LibmsiViewOps->set_row":setrow,"_LibmsiViewOps->insert_row":insert,
            "msi_record_encoded_stream_name":encname,"gsf_infile_child_by_name":child,"msi_update_table_columns":update,
            "debugstr_a":lambda I,a,mm,w_:("null",0),"g_object_unref":nop,"g_object_ref":lambda I,a,mm,w_:a[0],"dump_record":nop,
            "libmsi_record_is_null":lambda I,a,mm,w_:C(mm.get(("fld",(a[0][0],k(a[1])))) is None),
            "libmsi_record_get_field_count":lambda I,a,mm,w_:C(0)}
        M.calls.update(calls); M.own=own
        env={("a",0):("DB",0),("a",1):("STG",0),("a",2):("ST",0),("a",3):("TR",0),("a",4):C(w)}
        R=Region(s.P,s.F,m,M.calls,limit,M.loads,s.fns-set(M.calls))
        out=R.run(0,env)
        s.over=over
        return out
    def compare(s,what,cols,rows,out,found,key):
        """rows: [(mask, fields)]"""
        ctx=s.ctx; ctx.need(out,"no way through msi_table_load_transform for %s"%what)
        want=[]
        for i,(mask,f) in enumerate(rows):
            hit=i<len(found) and found[i]; f=tuple(sorted(f.items()))
            if hit:
                want.append(("delete",40+i) if not mask else ("set",40+i,f,mask))
            elif mask: want.append(("insert",f,0xffffffff,0))
        for kd,b,v,e,w in out:
            ctx.ok(); got=events(w,"row"); looked=events(w,"find")
            if len(got)!=len(want): ctx.find(key+":count",s.loc,"%s: %d changes are made to the table instead of %d"%(what,len(got),len(want))); continue
            for x,y in zip(got,want):
                same=x[0]==y[0]
                if same and x[0]=="set":
                    n=len(cols); full=(1<<n)-1
                    # a continuous row gives every column; otherwise exactly the columns of the mask
                    same=x[1:3]==y[1:3] and x[3] is not None and (x[3]&full==full if y[3]&1 else x[3]&full==y[3]&full)
                elif same: same=x==y
                if not same: ctx.find(key,s.loc,"%s is applied as %s instead of %s"%(what,x,y)); break
            keys=lambda f:tuple(x for x in f if cols[x[0]-1]&KEY)
            for x,(mask,f) in zip(looked,rows):
                if keys(x)!=keys(tuple(sorted(f.items()))): ctx.find(key+":key",s.loc,"%s: the row is looked for by %s instead of %s"%(what,keys(x),keys(tuple(sorted(f.items()))))); break
            for x in events(w,"table"): ctx.find(key+":table",s.loc,"%s: rows are applied to table %s"%(what,x))
        if s.over: ctx.find(key+":over",s.P.loc(s.over[0][1]),"%s: byte or column %d is read, which does not exist"%(what,s.over[0][0]))
    def masks(s,cols):
        n=len(cols); yield 0
        if n>8:
            for x in(1|1<<8,1|n//2<<8,1|(n-1)<<8,1|n<<8,1<<15,2,0xfffe): yield x
            return
        for c in range(n+1): yield 1|c<<8
        free=[i for i,ty in enumerate(cols) if not ty&KEY]
        for r in range(1,len(free)+1):
            for x in itertools.combinations(free,r): yield sum(1<<i for i in x)
    def values(s,cols,j,w):
        out=[]
        for i,ty in enumerate(cols):
            v=VALUES[kind(ty)]; x=v[(i+j)%len(v)]
            if not ty&KEY and (i+j)%4==3: x=0
            out.append(x)
        if w==3:
            for i,ty in enumerate(cols):
                if kind(ty)=="t" and (i+j)%3==1: out[i]=0x010203
        return out
    def rows(s):
        ctx=s.ctx
        for sn,(name,cols) in SCHEMAS.items():
            for w in(2,3):
                for j,mask in enumerate(s.masks(cols)):
                    vals=s.values(cols,j,w); d,f=enc(cols,mask,vals,w)
                    for found in((1,),(0,)):
                        ctx.count("transform rows")
                        out=s.go(name,cols,d,w,found)
                        s.compare("a row with mask %#x of a table %s (%d-byte references, %s)"%(mask,sn,w,"present" if found[0] else "absent"),cols,[(mask,f)],out,found,"row")
                        for kd,b,v,e,ww in out: s.streams(cols,f,ww)
                # several rows after each other, failures of one do not keep the others
                ms=list(s.masks(cols)); pick=[ms[0],ms[-1],ms[len(ms)//2],1|len(cols)<<8]
                for j in range(3):
                    rows=[]; d=[]
                    for i in range(4):
                        mask=pick[(i+j)%4]; x,f=enc(cols,mask,s.values(cols,i+j,w),w); d+=x; rows.append((mask,f))
                    for found in((1,1,1,1),(0,1,0,1),(1,0,1,0)):
                        for fail in(False,True):
                            ctx.count("transform rows"); out=s.go(name,cols,d,w,found,fail)
                            s.compare("a transform of four rows of a table %s%s"%(sn," of which each fails" if fail else ""),cols,rows,out,found,"rows")
        ctx.count("transform rows"); out=s.go("T",SCHEMAS["of keys only"][1],[],2); s.compare("an empty transform",SCHEMAS["of keys only"][1],[],out,(),"empty")
        if any(k(x[2])!=0 for x in out): ctx.find("empty:result",s.loc,"an empty table of a transform counts as a failure: the tables after it are not applied")
    def streams(s,cols,f,w):
        """a stream of a row is the child of the transform named after the table and the keys, which have been read before"""
        ctx=s.ctx; want={i for i,x in f.items() if x[0]=="stream"}
        got=events(w,"stream")
        if want: ctx.count("streams")
        for i,x in got:
            ctx.ok()
            if x!=("STM",0): ctx.find("stream:other",s.loc,"the stream of a row is not the one found in the transform")
        for st,nm in events(w,"child"):
            if st!=("STG",0) or nm!=("ENC",0): ctx.find("stream:child",s.loc,"the stream of a row is not looked for in the transform by its encoded name")
        for x in events(w,"name"):
            have=dict(x); miss=[i+1 for i,ty in enumerate(cols) if ty&KEY and i+1 in f and have.get(i+1)!=f[i+1] and i<min(want or {99})-1]
            if miss: ctx.find("stream:key",s.loc,"the stream of a row is named before key column %d is read"%miss[0])
    def columns(s):
        ctx=s.ctx; name,cols=COLUMNS
        def row(tbl,num,col,ty=0x8d00,mask=1|4<<8): return mask,[tbl,num,col,ty]
        cases=[("columns of a new table",[row(1,0,2),row(1,0,3),row(1,0,0x0201)],[1,2,3]),
               ("columns of two new tables",[row(1,0,2),row(1,0,3),row(2,0,1),row(2,0,3),row(2,0,0x0201)],[1,2,1,2,3]),
               ("columns added to a table",[row(1,0x8005,2),row(1,0x8006,3)],[5,6]),
               ("columns added to a table, and those of a new one",[row(1,0x8005,2),row(2,0,3),row(2,0,1),row(1,0x8006,3)],[5,1,2,6])]
        for what,rows,nums in cases:
            d=[]; want=[]
            for (mask,v),n in zip(rows,nums):
                x,f=enc(cols,mask,v,2); f[2]=("int",n); d+=x; want.append((mask,f))
            for found in((),(1,)*len(rows)):
                ctx.count("transform rows")
                out=s.go(name,cols,d,2,found); s.compare(what,cols,want,out,found,"columns")
                for kd,b,v,e,w in out:
                    # a table that is in use learns of its columns after they changed
                    for i,((mask,vals),n) in enumerate(zip(rows,nums)):
                        if not vals[1]: continue
                        seq=[(a[1],x) for a,x,I in w if isinstance(a,tuple) and a[0]=="event" and a[1] in("row","update")]
                        pos=[j for j,x in enumerate(seq) if x[0]=="row"]
                        if i<len(pos) and ("update",TEXT[vals[0]]) not in seq[pos[i]+1:]: ctx.find("columns:update",s.loc,"%s: the table is not told of its changed columns"%what)
    def truncated(s):
        ctx=s.ctx
        for sn,(name,cols) in SCHEMAS.items():
            for w in(2,3):
                full=1|len(cols)<<8; last=(1<<min(16,len(cols)))-2 & ~sum(1<<i for i,ty in enumerate(cols) if ty&KEY)
                for mask in{full,last}:
                    d0,f0=enc(cols,full,s.values(cols,1,w),w); d,f=enc(cols,mask,s.values(cols,2,w),w)
                    for n in range(0 if len(cols)<9 else len(d)-5,len(d)):
                        ctx.count("truncated transforms")
                        out=s.go(name,cols,d0+d[:n],w,(0,1)); s.compare("a row of a table %s cut off after %d bytes"%(sn,n),cols,[(full,f0)],out,(0,1),"cut")
                for c in(len(cols)+1,len(cols)+2,40,255):
                    ctx.count("truncated transforms"); d0,f0=enc(cols,full,s.values(cols,1,w),w)
                    out=s.go(name,cols,d0+list((1|c<<8).to_bytes(2,"little"))+[1]*600,w,(0,)); s.compare("a row with %d columns of a table %s"%(c,sn),cols,[(full,f0)],out,(0,),"many")
    # ---------------------------------------------------------------- the row with the keys of a record
    def found(s):
        ctx=s.ctx; F=ctx.need(s.P.fn("msi_table_find_row"),"msi_table_find_row not found"); loc=s.P.loc(F.blocks[0].insts[0]); ctx.fns(["msi_table_find_row"])
        IDS={"alpha":11,"beta":12,"gamma":13}
        def cell(ty,v): return 0 if v is None else IDS[v] if kind(ty)=="t" else (v+(0x8000 if kind(ty)=="s" else NULLI))&0xffffffff
        for sn,(name,cols) in SCHEMAS.items():
            keys=[i for i,ty in enumerate(cols) if ty&KEY]
            def row(*kv):
                r=[9 if kind(ty)!="t" else "gamma" for ty in cols]
                for i,v in zip(keys,kv): r[i]=v
                return r
            def val(i,j): return (("alpha","beta","gamma") if kind(cols[i])=="t" else (1,-1,32767))[j]
            table=[row(*[val(i,x) for i,x in zip(keys,c)]) for c in list(itertools.product((0,1),repeat=len(keys)))]
            cases=[[val(i,x) for i,x in zip(keys,c)] for c in itertools.product((0,1,2),repeat=len(keys))]+[[None]*len(keys)]
            if any(kind(cols[i])=="t" for i in keys): cases.append([("new" if kind(cols[i])=="t" else 1) for i in keys])
            for case in cases:
                rec=dict(zip(keys,case)); want=next((j for j,r in enumerate(table) if all(r[i]==v for i,v in rec.items())),None)
                M=CModel(s.P); m={}; over=[]
                def own(p,I,n,mm):
                    g=s.field(p)
                    if g is None: return None
                    if g[0]=="TV": return {"columns":("COLS",0),"table":("TAB",0),"db":("DB",0)}.get(g[2]) if not n else C(len(cols),n) if g[2]=="num_cols" else None
                    if g[0]=="TAB" and n: return C(len(table),n) if g[2]=="row_count" else None
                    if g[0]=="COLS" and g[2]=="type":
                        if not 0<=g[1]<len(cols): over.append(I); return C(0,n)
                        return C(cols[g[1]],n)
                    return None
                def get_int(I,a,mm,w_):
                    v=rec.get(k(a[1])-1); return C(v) if isinstance(v,int) else C(NULLI)
                def get_str(I,a,mm,w_):
                    v=rec.get(k(a[1])-1); return M.place(mm,v,("txt",v)) if isinstance(v,str) else ("null",0)
                def ident(I,a,mm,w_):
                    x=IDS.get(M.str(mm,a[1]))
                    if x is None: return C(7)
                    mm[a[2]]=C(x); return C(0)
                def fetch(I,a,mm,w_):
                    r,c=k(a[1]),k(a[2])
                    if r is None or c is None or not(0<=r<len(table) and 1<=c<=len(cols)): over.append(I); return C(7)
                    mm[a[3]]=C(cell(cols[c-1],table[r][c-1])); return C(0)
                M.own=own; M.calls.update({"libmsi_record_get_int":get_int,"_libmsi_record_get_string_raw":get_str,"libmsi_record_get_string":get_str,"_libmsi_id_from_string_utf8":ident,"table_view_fetch_int":fetch,"_LibmsiViewOps->fetch_int":fetch,"debugstr_a":lambda I,a,mm,w_:("null",0)})
                R=Region(s.P,F,m,M.calls,100000,M.loads,s.fns-set(M.calls)); ctx.count("keys looked for")
                for kd,b,v,e,w in R.run(0,{("a",0):("TV",0),("a",1):("REC",0),("a",2):("ROW",0),("a",3):("null",0)}):
                    ctx.ok(); got=k(e["mem"].get(("ROW",0))) if k(v)==0 else None
                    if k(v) is None or got!=want: ctx.find("found",loc,"a record with the keys %s of a table %s is taken for row %s instead of %s"%(case,sn,got,want))
                if over: ctx.find("found:over",s.P.loc(over[0]),"a row or column that does not exist is read")
    # ---------------------------------------------------------------- all tables
    def order(s):
        ctx=s.ctx; F=ctx.need(s.P.fn("msi_table_apply_transform"),"msi_table_apply_transform not found"); loc=s.P.loc(F.blocks[0].insts[0]); ctx.fns(["msi_table_apply_transform"])
        T=["_Tables","_Columns","A","B","_StringData","_StringPool"]
        for names in[p for p in itertools.permutations(T[:4])]+[("A","_StringData","_Columns","_StringPool","B","_Tables"),("A","B"),("_Tables",),("_Columns","A"),("B","!x","A"),()]:
            M=CModel(s.P); m={}; ev=lambda w_,n,v,I:w_.append((("event",n),v,I))
            for i,x in enumerate(names):
                M.place(m,b"abc"+x[1:].encode() if x[0]=="!" else bytes([0xe4,0xa1,0x80])+x.encode(),"CH%d"%i)
            def nm(I,a,mm,w_): return ("CH%d"%k(a[1]),0) if k(a[1]) is not None and k(a[1])<len(names) else ("null",0)
            def dec(I,a,mm,w_): return M.c_strdup(I,[a[0]],mm,w_)
            def load(I,a,mm,w_):
                tr=a[3]
                if tr==("null",0): return C(0)
                nmv=[M.str(mm,v) for x,v in mm.items() if isinstance(x,tuple) and root(x)==root(tr) and isinstance(v,tuple)]
                nmv=[x for x in nmv if x is not None]
                ev(w_,"load",(nmv[0] if nmv else None,a[0],a[1],a[2],a[4]),I)
                return C(0)
            def create(I,a,mm,w_):
                ev(w_,"open",M.str(mm,a[1]),I)
                if M.str(mm,a[1])=="B": return C(7)
                mm[a[2]]=("TV",0); return C(0)
            def strings(I,a,mm,w_): mm[a[1]]=C(3); return ("ST",0)
            calls={"gsf_infile_num_children":lambda I,a,mm,w_:C(len(names)),"gsf_infile_name_by_index":nm,"decode_streamname":dec,"msi_table_load_transform":load,"table_view_create":create,
                "_LibmsiViewOps->execute":lambda I,a,mm,w_:C(0),"_LibmsiViewOps->delete":lambda I,a,mm,w_:C(0),"msi_load_string_table":strings,
                "append_storage_to_db":lambda I,a,mm,w_:ev(w_,"append",a[1],I),"msi_destroy_stringtable":lambda I,a,mm,w_:ev(w_,"destroy",a[0],I),"debugstr_a":lambda I,a,mm,w_:("null",0)}
            M.calls.update(calls)
            R=Region(s.P,F,m,M.calls,200000,M.loads,s.fns-set(M.calls)); n=0
            for kd,b,v,e,w in R.run(0,{("a",0):("DB",0),("a",1):("STG",0)}):
                # memory is not exhausted
                n+=1; ctx.ok(); got=[x[0] for x in events(w,"load")]; tabs=[x for x in names if x[0]!="!" and x not in T[4:]]
                what="a transform of %s"%", ".join(names)
                if sorted(map(str,got))!=sorted(tabs): ctx.find("order:set",loc,"%s: the tables applied are %s"%(what,got)); continue
                rank=[T.index(x) if x in T[:2] else 2 for x in got]
                if rank!=sorted(rank): ctx.find("order",loc,"%s is applied in the order %s: tables and columns are not known when rows are added"%(what,", ".join(got)))
                for x in events(w,"load"):
                    if x[1:4]!=(("DB",0),("STG",0),("ST",0)) or k(x[4])!=3: ctx.find("order:args",loc,"%s is not decoded with its own strings"%what)
                if k(v)!=0: ctx.find("order:result",loc,"%s: a failure is reported"%what)
                if k(v)==0 and events(w,"append")!=[("STG",0)]: ctx.find("order:storage",loc,"%s: the streams of the transform cannot be found afterwards"%what)
            ctx.need(n,"no way through msi_table_apply_transform")
