"""Adding, changing and removing rows: the storage of a table and the statements above it are interpreted at the level of
bits on concrete tables, and the table that results is compared with the one expected."""
from steps import *
from recmodel import *
from bits import root
import itertools
MINIMUM={"rows changed":250,"rows added":80,"rows removed":20,"statements":100}
VALID,KEY,NUL,STR=0x100,0x2000,0x1000,0x800
def t(kd,key=0,nul=0): return {"s":VALID|2,"l":VALID|4,"t":VALID|STR|72,"b":VALID|STR}[kd]|(KEY if key else 0)|(NUL if nul else 0)
SCHEMAS={
 "keyed by text":[t("t",1),t("s",0,1),t("l",0,1),t("t",0,1),t("b",0,1)],
 "keyed by numbers":[t("s",1),t("l",1),t("t",0,1),t("s")],
 "with a required text":[t("t",1),t("s",1),t("t"),t("l")],
 "of 32 columns":[t("t",1)]+[t("s",0,1)]*15+[t("l",0,1)]*8+[t("t",0,1)]*8,
}
IDS={"k1":1,"k2":2,"k3":3,"old":4,"known":5,"k4":6}
NAMES={v:x for x,v in IDS.items()}
NEW=50
def kind(ty):
    if ty&~NUL==STR|VALID: return "b"
    return "t" if ty&STR else "l" if ty&0xff==4 else "s"
def width(ty): return {"t":3,"s":2,"l":4,"b":2}[kind(ty)]
def encode(cols,row):
    out=[]
    for ty,v in zip(cols,row):
        kd=kind(ty)
        x=0 if v is None else 1 if kd=="b" else (IDS.get(v) or NEW+sum(map(ord,v))) if kd=="t" else (v+(0x8000 if kd=="s" else NULLI))&0xffffffff
        out+=list(x.to_bytes(width(ty),"little"))
    return out
def fields(row): return [None if v is None else ("stream",("STM%s"%v,0)) if isinstance(v,tuple) else ("text",v) if isinstance(v,str) else ("int",v&0xffffffff) for v in row]
def run(ctx):
    P=ctx.prog("libmsi")
    S=Storage(ctx,P); S.set(); S.insert(); S.order(); S.delete()
    T=Statements(ctx,P); T.insert(); T.update(); T.select(); T.where(); T.delete()
    ctx.rule("The rows of a table after adding, changing or removing one are those before it, with exactly the cells, the row and the strings asked for changed; what is refused leaves the rows as they were; INSERT, UPDATE and DELETE ask for the columns and rows their text names.")
def first(P,n): return P.fn(n)
class Base:
    def __init__(s,ctx,P): s.ctx,s.P=ctx,P
    def fn(s,n):
        F=s.ctx.need(s.P.fn(n),n+" not found"); s.ctx.fns([n]); return F,s.P.loc(F.blocks[0].insts[0])
    def inline(s,F): return {n for n,G in s.P.fns.items() if G.file==F.file}
# ---------------------------------------------------------------------- the storage of a table
class Storage(Base):
    PERS=1
    def go(s,name,cols,rows,args,record=None,pers=None,tpers=1,limit=400000):
        """interpret a function on a table of these rows; returns [(result, table or None, persistence, writes, env)]"""
        F,loc=s.fn(name); M=CModel(s.P); m={}; s.over=[]; RM=Records(M)
        pers=pers or [1]*len(rows)
        for i,r in enumerate(rows):
            m[("DATA",8*i)]=("ROW%d"%i,0); m[("PERS",i)]=C(pers[i],8)
            for j,b in enumerate(encode(cols,r)): m[("ROW%d"%i,j)]=C(b,8)
        offs=[sum(width(x) for x in cols[:i]) for i in range(len(cols))]; size=sum(map(width,cols))
        tvs=next((n for n,f in s.P.structs.items() if {"num_cols","row_size","columns"}<={x[0] for x in f}),None)
        s.ctx.need(tvs,"the structure of an open table has changed")
        M.place(m,"Tab",((("TV",0),"f",tvs,"name")))
        if record is not None: RM.put(m,"REC",fields(record))
        def own(p,I,n,mm):
            if p[0] in("DATA","PERS") or isinstance(p[0],str) and p[0].startswith("ROW"):
                s.over.append(("%s[%s]"%p,I)); return C(0,n) if n else None
            g=field(p)
            if g is None: return None
            o,i,f=g
            if o=="TV":
                v={"columns":("COLS",0),"table":("TAB",0),"db":("DB",0),"num_cols":len(cols),"row_size":size}.get(f)
                return C(v,n) if n and isinstance(v,int) else v if not n and isinstance(v,tuple) else None
            if o=="TAB":
                v={"data":("DATA",0) if rows else ("null",0),"data_persistent":("PERS",0) if rows else ("null",0),"row_count":len(rows),"col_count":len(cols),"colinfo":("COLS",0),"persistent":tpers}.get(f)
                return C(v,n) if n and isinstance(v,int) else v if not n and isinstance(v,tuple) else None
            if o=="COLS":
                if not 0<=i<len(cols): s.over.append(("column %d"%i,I)); return C(0,n) if n else ("null",0)
                v={"type":cols[i],"offset":offs[i],"number":i+1,"hash_table":("HASH%d"%i,0)}.get(f)
                return C(v,n) if n and isinstance(v,int) else v if not n and isinstance(v,tuple) else None
            if o=="DB" and f=="strings": return ("ST",0)
            return None
        def ident(I,a,mm,w):
            x=M.str(mm,a[1])
            i=IDS.get(x) or ("id",x) in mm and NEW+sum(map(ord,x))
            if not i: return C(7)
            mm[a[2]]=C(i); return C(0)
        def addstr(I,a,mm,w):
            if a[1]==("null",0): return C(0)
            x=M.str(mm,a[1])
            if not x: return C(0)
            if k(a[2]) not in(0xffffffff,len(x)): w.append((("event","length"),x,I))
            w.append((("event","string"),(x,k(a[3]),k(a[4])),I))
            mm[("id",x)]=1
            return C(IDS.get(x) or NEW+sum(map(ord,x)))
        def lookup(I,a,mm,w):
            x=NAMES.get(k(a[1])) or next((y[1] for y in mm if y[0]=="id" and NEW+sum(map(ord,y[1]))==k(a[1])),None)
            return M.place(mm,x,("txt",x)) if x else ("null",0)
        def addstream(I,a,mm,w): w.append((("event","stream"),(M.str(mm,a[1]),a[2]),I)); return C(0)
        M.own=own; M.calls.update(RM.calls())
        M.calls.update({"_libmsi_id_from_string_utf8":ident,"_libmsi_add_string":addstr,"msi_string_lookup_id":lookup,"_libmsi_add_stream":addstream})
        env={("a",i):x for i,x in enumerate(args)}
        R=Region(s.P,F,m,M.calls,limit,M.loads,s.inline(F)-set(M.calls)); out=[]
        for kd,b,v,e,w in R.run(0,env):
            mm=e["mem"]; cell=lambda f,d:next((x for p,x in mm.items() if field(p)==("TAB",0,f)),d)
            n=k(cell("row_count",C(len(rows)))); data=cell("data",("DATA",0)); per=cell("data_persistent",("PERS",0)); tab=[]; fl=[]
            if n is None or not isinstance(data,tuple): tab=None
            else:
                ptr=[mm.get((data[0],data[1]+8*i)) for i in range(n)]
                freed={x for x in events(w,"free") if isinstance(x,tuple)}
                if len(set(ptr))!=n or any(p is None or p in freed for p in ptr) or data in freed or per in freed: tab=None
                else:
                    for i,p in enumerate(ptr):
                        bs=[M.byte(mm,(p[0],p[1]+j)) for j in range(size)]
                        tab.append([k(x) if x is not None else None for x in bs]); z=M.byte(mm,(per[0],per[1]+i)); fl.append(k(z) if z is not None else None)
            o=M.outside(F,mm,w)
            if o: s.over.append(("outside of an object",o[0][2]))
            out.append((k(v),tab,fl,w,e))
        s.ctx.stuck(out,name,loc)
        if s.over: s.ctx.find(name+":over",s.P.loc(s.over[0][1]),"%s is accessed, which does not exist"%s.over[0][0])
        return out,loc
    def table(s,cols,n):
        rows=[]
        for i in range(n):
            r=[]
            for j,ty in enumerate(cols):
                kd=kind(ty)
                if ty&KEY: r.append("k%d"%(i+1) if kd=="t" else 10*(i+1)-15)
                elif kd=="b": r.append(None if i%2 else ("x",))
                else: r.append({"t":("old","known")[i%2],"s":-5+i*7+j,"l":100000*(i+1)+j}[kd] if (i+j)%5 or not ty&NUL else None)
            rows.append(r)
        return rows
    def record(s,cols,j,rows,new=False):
        """a record of values of all kinds"""
        r=[]
        for i,ty in enumerate(cols):
            kd=kind(ty); x=(i+j)%5
            if ty&KEY: r.append("k4" if kd=="t" else 77)
            elif x==3 and ty&NUL: r.append(None)
            elif kd=="b": r.append(("n%d"%j,))
            else: r.append({"t":("old","known","fresh","other","old")[x],"s":(0,-32767,32767,5,-1)[x],"l":(0,-2147483647,2147483647,70000,-1)[x]}[kd])
        return r
    def strings(s,cols,before,after,mask):
        """texts that get a reference"""
        return sorted(a for i,(ty,b,a) in enumerate(zip(cols,before,after)) if mask>>i&1 and kind(ty)=="t" and a is not None and a!=b)
    def judge(s,what,key,loc,cols,out,want,wp,strs,persistent,streams=()):
        ctx=s.ctx
        for v,tab,fl,w,e in out:
            ctx.ok()
            if v!=0: ctx.find(key+":refused",loc,"%s fails (%s)"%(what,v)); continue
            enc=[encode(cols,r) for r in want]
            if tab is None: ctx.find(key+":broken",loc,"%s: rows of the table are lost, shared or freed"%what); continue
            if tab!=enc:
                d=next((i for i,(x,y) in enumerate(zip(tab,enc)) if x!=y),None)
                ctx.find(key,loc,"%s: %s"%(what,"the table has %d rows instead of %d"%(len(tab),len(enc)) if d is None or len(tab)!=len(enc) else "row %d is %s instead of %s"%(d,s.decode(cols,tab[d]),want[d]))); continue
            if [bool(x) for x in fl]!=[bool(x) for x in wp]: ctx.find(key+":persistent",loc,"%s: rows are kept or dropped when the database is saved as %s instead of %s"%(what,fl,wp))
            if sorted(x[0] for x in events(w,"string"))!=strs: ctx.find(key+":strings",loc,"%s: references are taken of the strings %s instead of %s"%(what,sorted(x[0] for x in events(w,"string")),strs))
            for x in events(w,"string"):
                if x[1]!=1 or x[2]!=persistent: ctx.find(key+":keep",loc,"%s: the string of the cell is not saved exactly when its row is"%what)
            if list(events(w,"stream"))!=list(streams): ctx.find(key+":stream",loc,"%s: streams stored are %s instead of %s"%(what,events(w,"stream"),list(streams)))
    def decode(s,cols,bs):
        out=[]; o=0
        for ty in cols:
            b=bs[o:o+width(ty)]; o+=width(ty)
            x=None if any(y is None for y in b) else int.from_bytes(bytes(b),"little")
            out.append("?" if x is None else None if not x else x if kind(ty)=="b" else NAMES.get(x,x) if kind(ty)=="t" else (x-(0x8000 if kind(ty)=="s" else NULLI)))
        return out
    def keyname(s,cols,row): return ".".join(["Tab"]+[str(v) for ty,v in zip(cols,row) if ty&KEY])
    def consts(s):
        e=s.P.enum("StringPersistent"); n=s.P.enum("StringNonPersistent"); s.ctx.need(e is not None and n is not None,"string persistence is no longer an enumeration"); return n,e
    def set(s):
        ctx=s.ctx; np,pp=s.consts()
        for sn,cols in SCHEMAS.items():
            n=len(cols); rows=s.table(cols,3); nokey=[i for i,ty in enumerate(cols) if not ty&KEY]
            masks=[sum(1<<i for i in c) for r in range(len(nokey)+1) for c in itertools.combinations(nokey,r)] if n<8 else [0,1<<31,1<<16,2,0xfffe,0x80008000]
            masks.append((1<<n)-1)
            for mask in masks:
                for j in range(5 if n<8 else 2):
                    for r in((0,1,2) if j<2 else (1,)):
                        rec=s.record(cols,j,rows)
                        if mask!=(1<<n)-1: rec=[rows[r][i] if ty&KEY else v for i,(ty,v) in enumerate(zip(cols,rec))]
                        per=[1,0,1] if j%2 else [1,1,0]; tp=0 if j==4 else 1
                        want=[list(x) for x in rows]; want[r]=[v if mask>>i&1 else x for i,(x,v) in enumerate(zip(rows[r],rec))]
                        strm=[(s.keyname(cols,want[r]),("STM%s"%rec[i],0)) for i,ty in enumerate(cols) if kind(ty)=="b" and mask>>i&1 and rec[i] is not None]
                        out,loc=s.go("table_view_set_row",cols,rows,[("TV",0),C(r),("REC",0),C(mask)],rec,per,tp)
                        ctx.count("rows changed")
                        s.judge("changing columns %#x of row %d of a table %s"%(mask,r,sn),"set",loc,cols,out,want,per,s.strings(cols,rows[r],rec,mask),pp if per[r] and tp else np,[(a,b) for a,b in strm])
            # numbers that do not fit, columns that do not exist
            for i,ty in enumerate(cols[:8]):
                if kind(ty)!="s": continue
                for v in(-32769,32768,70000,-2147483647):
                    rec=list(rows[1]); rec[i]=v; ctx.count("rows changed")
                    out,loc=s.go("table_view_set_row",cols,rows,[("TV",0),C(1),("REC",0),C(1<<i)],rec)
                    for res,tab,fl,w,e in out:
                        ctx.ok()
                        if res==0: ctx.find("set:range",loc,"%d is stored in a 2-byte column"%v)
                        if tab!=[encode(cols,x) for x in rows]: ctx.find("set:range",loc,"a number that is refused changes the table")
            if n<32:
                for mask in(1<<n,1<<31,3<<n):
                    out,loc=s.go("table_view_set_row",cols,rows,[("TV",0),C(1),("REC",0),C(mask)],rows[1]+[1]); ctx.ok(len(out))
                    if any(x[0]==0 for x in out): ctx.find("set:mask",loc,"a column that does not exist is set")
    def insert(s):
        ctx=s.ctx; np,pp=s.consts()
        for sn,cols in SCHEMAS.items():
            n=len(cols)
            for nrows in(0,1,2,3):
                rows=s.table(cols,nrows)
                for j in range(4):
                    for temp in(0,1):
                        for at in[0xffffffff]+([0] if j==0 else []):
                            rec=s.record(cols,j,rows); per=[(i+j)%2 for i in range(nrows)]; ctx.count("rows added")
                            out,loc=s.go("table_view_insert_row",cols,rows,[("TV",0),("REC",0),C(at),C(temp,1)],rec,per)
                            what="adding a row to %d rows of a table %s"%(nrows,sn)
                            strm=[(s.keyname(cols,rec),("STM%s"%rec[i],0)) for i,ty in enumerate(cols) if kind(ty)=="b" and rec[i] is not None]
                            for o in out:
                                # the place of the new row is free; the others stay in order
                                enc=encode(cols,rec); pos=[i for i,x in enumerate(o[1] or []) if x==enc]
                                i=pos[0] if len(pos)==1 else nrows
                                if at==0: i=0
                                want=rows[:i]+[rec]+rows[i:]
                                s.judge(what,"insert",loc,cols,[o],want,per[:i]+[0 if temp else 1]+per[i:],sorted(v for ty,v in zip(cols,rec) if kind(ty)=="t" and v is not None),np if temp else pp,strm)
                # refused rows
                bad=[]
                base=s.record(cols,0,rows)
                for i in range(nrows):
                    b=list(base); 
                    for c,ty in enumerate(cols):
                        if ty&KEY: b[c]=rows[i][c]
                    bad.append((b,"a row whose keys exist"))
                for c,ty in enumerate(cols[:8]):
                    if not ty&NUL and kind(ty)!="b": b=list(base); b[c]=None; bad.append((b,"a row without the required column %d"%(c+1)))
                    if kind(ty)=="s": b=list(base); b[c]=40000; bad.append((b,"a row with a number that does not fit"))
                for rec,why in bad:
                    ctx.count("rows added"); per=[i%2 for i in range(nrows)]
                    out,loc=s.go("table_view_insert_row",cols,rows,[("TV",0),("REC",0),C(0xffffffff),C(0,1)],rec,per)
                    for v,tab,fl,w,e in out:
                        ctx.ok()
                        if v==0: ctx.find("insert:accepted",loc,"%s is added to a table %s"%(why,sn))
                        elif tab!=[encode(cols,x) for x in rows] or [bool(x) for x in fl]!=[bool(x) for x in per]: ctx.find("insert:partial",loc,"%s is refused, but the table %s is changed"%(why,sn))
    def order(s):
        """a new row is put where the stored values of its keys belong"""
        ctx=s.ctx
        for cols,all_ in(([t("s",1),t("t",0,1)],[[5],[9],[12],[-3],[0x7fff]]),([t("l",1),t("s",0,1)],[[-0x7fffffff],[-1],[1],[0x7fffffff]]),([t("t",1),t("s",0,1)],[["k1"],["k3"],["old"],["k4"]]),
                ([t("s",1),t("s",0,1),t("s",1)],[[1,None,5],[1,None,8],[2,None,1],[2,None,9],[4,None,4]]),([t("t",1),t("s",1)],[["k3",2],["k3",4],["k4",1],["k4",3]])):
            n=len(cols); full=[(r+[None]*n)[:n] for r in all_]; key=lambda r:[encode([ty],[v])[::-1] for ty,v in zip(cols,r) if ty&KEY]; full.sort(key=key)
            for i in range(len(full)):
                rows=full[:i]+full[i+1:]; rec=full[i]; ctx.count("rows added")
                out,loc=s.go("table_view_insert_row",cols,rows,[("TV",0),("REC",0),C(0xffffffff),C(0,1)],rec)
                for v,tab,fl,w,e in out:
                    ctx.ok()
                    if v==0 and tab!=[encode(cols,x) for x in full]: ctx.find("insert:order",loc,"a row with the keys %s is not put between the rows its keys put it"%[x for ty,x in zip(cols,rec) if ty&KEY])
    def delete(s):
        ctx=s.ctx
        for sn,cols in SCHEMAS.items():
            for nrows in(1,2,3):
                rows=s.table(cols,nrows); per=[(i+1)%2 for i in range(nrows)]
                for r in range(nrows+2):
                    ctx.count("rows removed")
                    out,loc=s.go("table_view_delete_row",cols,rows,[("TV",0),C(r)],None,per)
                    if r<nrows: s.judge("removing row %d of %d of a table %s"%(r,nrows,sn),"delete",loc,cols,out,rows[:r]+rows[r+1:],per[:r]+per[r+1:],[],1)
                    else:
                        for v,tab,fl,w,e in out:
                            ctx.ok()
                            if v==0 or tab!=[encode(cols,x) for x in rows]: ctx.find("delete:range",loc,"removing row %d of %d does not fail, or changes the table"%(r,nrows))
# ---------------------------------------------------------------------- statements
class Statements(Base):
    FILES=("insert.c","update.c","delete.c","select.c","where.c")
    def inline(s,F): return {n for n,G in s.P.fns.items() if G.file==F.file or G.file.rsplit("/",1)[-1] in s.FILES}
    def go(s,name,args,own,calls,m=None,recs=(),limit=200000):
        F,loc=s.fn(name); M=CModel(s.P); m=dict(m or {}); RM=Records(M); s.M,s.RM=M,RM
        for r,f in recs: RM.put(m,r,f)
        M.own=lambda p,I,n,mm:own(p,I,n,mm,M)
        M.calls.update(RM.calls()); M.calls.update(calls)
        R=Region(s.P,F,m,M.calls,limit,M.loads,s.inline(F)-set(M.calls)); out=R.run(0,{("a",i):x for i,x in enumerate(args)})
        s.ctx.stuck(out,name,loc); return out,loc
    def slots(s,views):
        """hooks for the functions of the views below; views: object -> {"columns":[(name,type)],"rows":n}"""
        def view(a): return a[0] if isinstance(a,tuple) else None
        def execute(I,a,m,w): w.append((("event","execute"),(view(a[0]),s.RM.all(m,a[1]) if a[1]!=("null",0) and isinstance(a[1],tuple) else None),I)); return C(0)
        def dims(I,a,m,w):
            v=views.get(view(a[0]))
            if v is None: return C(7)
            if a[1]!=("null",0): m[a[1]]=C(v["rows"])
            if a[2]!=("null",0): m[a[2]]=C(len(v["columns"]))
            return C(0)
        def info(I,a,m,w):
            v=views.get(view(a[0])); i=k(a[1])
            if v is None or i is None or not 1<=i<=len(v["columns"]): return C(6)
            nm,ty=v["columns"][i-1]
            if a[2]!=("null",0): m[a[2]]=s.M.place(m,nm,("txt",nm))
            if a[3]!=("null",0): m[a[3]]=C(ty)
            if a[4]!=("null",0): m[a[4]]=C(0,8)
            if a[5]!=("null",0): m[a[5]]=s.M.place(m,"T",("txt","T"))
            return C(0)
        fails=views.get("fails",{})
        def ev(n,f):
            def g(I,a,m,w):
                w.append((("event",n),(view(a[0]),)+f(a,m),I)); i=sum(1 for x in w if x[0]==("event",n))-1
                return C(fails.get((n,i),0))
            return g
        return {"_LibmsiViewOps->execute":execute,"_LibmsiViewOps->get_dimensions":dims,"_LibmsiViewOps->get_column_info":info,
            "_LibmsiViewOps->insert_row":ev("insert",lambda a,m:(s.RM.all(m,a[1]),k(a[3]),k(a[2]))),
            "_LibmsiViewOps->set_row":ev("set",lambda a,m:(k(a[1]),s.RM.all(m,a[2]),k(a[3]))),
            "_LibmsiViewOps->delete_row":ev("delete",lambda a,m:(k(a[1]),))}
    def values(s,vals):
        """loads of a list of values of a statement"""
        S,N,W=(s.const(x) for x in("EXPR_SVAL","EXPR_IVAL","EXPR_WILDCARD"))
        def own(p,I,n,m,M):
            r=root(p)
            if not isinstance(r,str) or r[:1] not in"VE" or not r[1:].isdigit(): return None
            i=int(r[1:]); g=field(p); f=g[2] if g else None
            if r[0]=="V":
                if n: return None
                return (("V%d"%(i+1),0) if i+1<len(vals) else ("null",0)) if f=="next" else ("E%d"%i,0)
            v=vals[i]
            if n==32 and f in("type",None) and not(p[1]): return C(W if v=="?" else S if isinstance(v,str) else N,n)
            if n: return C(v,n) if isinstance(v,int) else None
            return M.place(m,v,("txt",v)) if isinstance(v,str) else None
        return own
    def const(s,n): return {"EXPR_IVAL":6,"EXPR_SVAL":5,"EXPR_WILDCARD":9}.get(n) if False else s.defs()[n]
    def defs(s):
        if not hasattr(s,"_d"):
            import re,os
            from prep import REPO
            tx=open(os.path.join(REPO,"libmsi","query.h")).read()
            s._d={a:int(b,0) for a,b in re.findall(r"#\s*define\s+(EXPR_\w+)\s+(\w+)\s*$",tx,re.M)}
            for x in("EXPR_SVAL","EXPR_IVAL","EXPR_WILDCARD"): s.ctx.need(x in s._d,x+" is no longer defined")
        return s._d
    def fieldval(s,v): return None if v is None or v=="" else ("text",v) if isinstance(v,str) else ("int",v&0xffffffff)
    def merged(s,vals,rec):
        """fields of the values with the markers filled in, or None"""
        out=[]; j=0
        for v in vals:
            if v=="?":
                if rec is None or j>=len(rec): return None
                out.append(rec[j]); j+=1
            else: out.append(s.fieldval(v))
        return out
    CASES=[(["x"],None),([7],None),(["x",-1],None),([3,"y","z"],None),(["?"],["r1"]),(["?","?"],["r1",5]),(["a","?",4,"?"],["r1",None]),(["?","x","?"],["r1","r2"]),(["?","?"],["r1"]),(["?","x"],None),(["x","?"],["r1","r2","r3"]),(["","x"],None),(["a","b","c","d"],None),([1,2,3,4],["unused"])]
    def insert(s):
        ctx=s.ctx; cols=[("Alpha",t("t",1)),("Beta",t("s",0,1)),("Gamma",t("t",0,1)),("Delta",t("l",0,1))]
        for vals,rec in s.CASES:
            rec=[s.fieldval(x) for x in rec] if rec is not None else None
            for perm in itertools.permutations(range(4),len(vals)):
              for temp in((0,1) if perm[0]==0 else (0,)):
                sv=[cols[i] for i in perm]; vs=s.values(vals)
                def own(p,I,n,m,M):
                    g=field(p)
                    if g and g[0]=="IV":
                        v={"table":("TABLE",0),"sv":("SV",0),"vals":("V0",0),"db":("DB",0)}.get(g[2])
                        return v if v and not n else C(temp,n) if g[2]=="bIsTemp" and n else None
                    return vs(p,I,n,m,M)
                views={"TABLE":{"columns":cols,"rows":3},"SV":{"columns":sv,"rows":3}}
                what="INSERT of %d columns in the order %s"%(len(vals),perm); ctx.count("statements")
                out,loc=s.go("insert_view_execute",[("IV",0),("REC",0) if rec is not None else ("null",0)],own,s.slots(views),recs=[("REC",rec)] if rec is not None else [])
                want=s.merged(vals,rec)
                for kd,b,v,e,w in out:
                    ctx.ok(); got=events(w,"insert")
                    if want is None:
                        if got or k(v)==0: ctx.find("insert:markers",loc,"%s with too few values for its markers adds a row"%what)
                        continue
                    full=tuple(sorted((c+1,x) for c,x in zip(perm,want) if x is not None))
                    if len(got)!=1 or got[0][0]!="TABLE": ctx.find("insert:once",loc,"%s adds %d rows"%(what,len(got))); continue
                    if got[0][1]!=full: ctx.find("insert:columns",loc,"%s of the values %s adds %s instead of %s"%(what,vals,got[0][1],full))
                    if got[0][2]!=temp: ctx.find("insert:temporary",loc,"%s: a row that is temporary is kept, or the reverse"%what)
                    first=any(ty&KEY and c+1 not in dict(full) for c,(nm,ty) in enumerate(cols))
                    if got[0][3]!=(0 if first else 0xffffffff): ctx.find("insert:place",loc,"%s puts the row at %s"%(what,got[0][3] if got[0][3]!=0xffffffff else "the place of its keys although one is null"))
                    if k(v)!=0: ctx.find("insert:result",loc,"%s fails"%what)
            # a failure is passed on
        views={"TABLE":{"columns":cols,"rows":0},"SV":{"columns":cols,"rows":0},"fails":{("insert",0):7}}; vs=s.values(["a",1,"b",2])
        def own(p,I,n,m,M):
            g=field(p)
            if g and g[0]=="IV":
                v={"table":("TABLE",0),"sv":("SV",0),"vals":("V0",0)}.get(g[2]); return v if v and not n else C(0,n) if n else None
            return vs(p,I,n,m,M)
        out,loc=s.go("insert_view_execute",[("IV",0),("null",0)],own,s.slots(views)); ctx.ok()
        if any(k(x[2])==0 for x in out): ctx.find("insert:failed",loc,"INSERT succeeds although the row is refused")
    def update(s):
        ctx=s.ctx
        for vals,rec in s.CASES+[(["x","?"],["r1","w1"]),(["?","?"],["r1","r2","w1","w2"]),(["x","y"],["w1"]),(["x"],["w1","w2"])]:
            rec=[s.fieldval(x) for x in rec] if rec is not None else None
            for rows in(0,1,3):
              for fail in(None,1):
                if fail is not None and rows!=3: continue
                cols=[("C%d"%i,t("t",0,1)) for i in range(len(vals))]; vs=s.values(vals)
                def own(p,I,n,m,M):
                    g=field(p)
                    if g and g[0]=="UV":
                        v={"wv":("WV",0),"vals":("V0",0),"db":("DB",0)}.get(g[2]); return v if not n else None
                    return vs(p,I,n,m,M)
                views={"WV":{"columns":cols,"rows":rows},"fails":{("set",fail):7} if fail is not None else {}}; ctx.count("statements")
                out,loc=s.go("update_view_execute",[("UV",0),("REC",0) if rec is not None else ("null",0)],own,s.slots(views),recs=[("REC",rec)] if rec is not None else [])
                want=s.merged(vals,rec); marks=sum(1 for x in vals if x=="?"); what="UPDATE of %s with %s"%(vals,rec)
                for kd,b,v,e,w in out:
                    ctx.ok(); got=events(w,"set"); ex=events(w,"execute")
                    if want is None:
                        if got or k(v)==0: ctx.find("update:markers",loc,"%s: too few values for its markers, but rows are changed"%what)
                        continue
                    cond=tuple(sorted((i+1,x) for i,x in enumerate((rec or [])[marks:]) if x is not None))
                    if len(ex)!=1 or ex[0][0]!="WV" or (ex[0][1] or ())!=cond: ctx.find("update:condition",loc,"%s: the condition gets the values %s instead of %s"%(what,ex,cond))
                    full=tuple(sorted((i+1,x) for i,x in enumerate(want) if x is not None)); n=len(vals)
                    if fail is not None:
                        if k(v)==0: ctx.find("update:failed",loc,"%s succeeds although a row could not be changed"%what)
                        continue
                    if sorted(x[1] for x in got)!=list(range(rows)): ctx.find("update:rows",loc,"%s changes the rows %s of %d found"%(what,[x[1] for x in got],rows)); continue
                    for x in got:
                        if x[2]!=full or x[3] is None or x[3]&((1<<n)-1)!=(1<<n)-1: ctx.find("update:values",loc,"%s changes %s (columns %#x) instead of %s"%(what,x[2],x[3] or 0,full))
                        if x[3] is not None and x[3]>>n: ctx.find("update:mask",loc,"%s changes columns that do not exist"%what)
                    if k(v)!=0: ctx.find("update:result",loc,"%s fails"%what)
    def select(s):
        ctx=s.ctx
        for ncol in(1,2,4,32):
            for sel in[list(range(1,ncol+1)),list(range(ncol,0,-1)),[ncol],[1]]+([[2,4],[4,1,3],[3]] if ncol==4 else [[32,1,16]] if ncol==32 else []):
                cols=[("C%d"%i,t("t",0,1)) for i in range(ncol)]
                def own(p,I,n,m,M):
                    g=field(p)
                    if g and g[0]=="SVW" and g[2]!="cols":
                        if g[2]=="table" and not n: return ("TABLE",0)
                        if n: return {"num_cols":C(len(sel),n),"max_cols":C(len(sel),n)}.get(g[2])
                        return None
                    b,o=(p[0],p[1]) if isinstance(p,tuple) else (None,None)
                    if isinstance(b,tuple) and len(b)==4 and b[3]=="cols" and root(p)=="SVW" and n==32 and isinstance(o,int):
                        return C(sel[o//4],n) if 0<=o//4<len(sel) else C(0,n)
                    return None
                views={"TABLE":{"columns":cols,"rows":3}}; rec=[s.fieldval("v%d"%i if i%3 else None) for i in range(len(sel))]; ctx.count("statements")
                full=(1<<len(sel))-1
                out,loc=s.go("select_view_set_row",[("SVW",0),C(2),("REC",0),C(full)],own,s.slots(views),recs=[("REC",rec)])
                want=tuple(sorted((c,x) for c,x in zip(sel,rec) if x is not None)); wm=sum(1<<c-1 for c in sel)
                for kd,b,v,e,w in out:
                    ctx.ok(); got=events(w,"set")
                    if len(got)!=1 or got[0][0]!="TABLE" or got[0][1]!=2: ctx.find("select:row",loc,"changing a row of a selection changes %s"%(got,)); continue
                    if got[0][2]!=want or got[0][3]!=wm: ctx.find("select:columns",loc,"changing the columns %s changes %s (mask %#x)"%(sel,got[0][2],got[0][3] or 0))
                    if k(v)!=0: ctx.find("select:result",loc,"changing the columns %s fails"%sel)
    def where(s):
        ctx=s.ctx; key=t("t",1); txt=t("t",0,1)
        shapes=[[[key,txt,txt]],[[txt]],[[key,txt],[key,txt,txt]],[[key],[txt,txt]],[[key]+[txt]*31],[[key]+[txt]*15,[key]+[txt]*15]]
        for tabs in shapes:
            total=sum(map(len,tabs)); types=sum(tabs,[])
            masks=range(1<<total) if total<6 else [0,1<<31,1<<15,0x7ffe,0xfffe,0xffff,1<<16,1<<17,0x80020002,0xfffffffe]
            for mask in masks:
                ctx.count("statements")
                rec=[s.fieldval("v%d"%i if i%4 else None) for i in range(total)]
                RS=[[5,3],[9,4],[6,7]]
                views={"VIEW%d"%i:{"columns":[("c",x) for x in tab],"rows":20} for i,tab in enumerate(tabs)}
                own=s.joined(tabs,RS)
                out,loc=s.go("where_view_set_row",[("WV",0),C(1),("REC",0),C(mask)],own,s.slots(views),recs=[("REC",rec)])
                keyhit=any(mask>>i&1 and ty&KEY for i,ty in enumerate(types)); want=[]; o=0
                for i,tab in enumerate(tabs):
                    sub=mask>>o&((1<<len(tab))-1)
                    if sub: want.append(("VIEW%d"%i,RS[1][i],sub,{c+1:rec[o+c] for c in range(len(tab)) if sub>>c&1}))
                    o+=len(tab)
                for kd,b,v,e,w in out:
                    ctx.ok(); got=events(w,"set"); what="changing columns %#x of rows found in tables of %s columns"%(mask,[len(x) for x in tabs])
                    if keyhit:
                        if got or k(v)==0: ctx.find("where:key",loc,"%s changes a key column"%what)
                        continue
                    g=[(x[0],x[1],x[3],{c:dict(x[2]).get(c) for c in range(1,33) if x[3] is not None and x[3]>>c-1&1}) for x in got]
                    if g!=want: ctx.find("where:set",loc,"%s changes %s instead of %s"%(what,g,want))
                    elif k(v)!=0 and mask: ctx.find("where:result",loc,"%s fails"%what)
            for row in range(5):
                RS=[[5,3],[9,4],[6,7]]; views={"VIEW%d"%i:{"columns":[("c",x) for x in tab],"rows":20} for i,tab in enumerate(tabs)}; ctx.count("statements")
                out,loc=s.go("where_view_delete_row",[("WV",0),C(row)],s.joined(tabs,RS),s.slots(views))
                for kd,b,v,e,w in out:
                    ctx.ok(); got=events(w,"delete")
                    if row<3 and len(tabs)==1:
                        if got!=[("VIEW0",RS[row][0])] or k(v)!=0: ctx.find("where:delete",loc,"removing row %d found removes %s"%(row,got))
                    elif got or k(v)==0: ctx.find("where:delete:none",loc,"removing a row that was not found, or of joined tables, removes %s"%(got,))
    def joined(s,tabs,RS):
        def own(p,I,n,m,M):
            g=field(p)
            if isinstance(p,tuple) and isinstance(p[0],str) and p[0]=="REO" and not n: return ("ENT%d"%(p[1]//8),0) if isinstance(p[1],int) and 0<=p[1]//8<len(RS) else None
            r=root(p)
            if isinstance(r,str) and r.startswith("ENT") and n==32:
                x=int(r[3:]); return C(RS[x][p[1]//4],n) if isinstance(p[1],int) and 0<=p[1]//4<len(RS[x]) else None
            if not g: return None
            o,i,f=g
            if o=="WV":
                if not n: return {"tables":("JT0",0),"reorder":("REO",0)}.get(f)
                v={"row_count":len(RS),"col_count":sum(map(len,tabs)),"table_count":len(tabs)}.get(f); return C(v,n) if v is not None else None
            if isinstance(o,str) and o.startswith("JT"):
                x=int(o[2:])
                if not n: return {"next":("JT%d"%(x+1),0) if x+1<len(tabs) else ("null",0),"view":("VIEW%d"%x,0)}.get(f)
                v={"col_count":len(tabs[x]),"row_count":20,"table_index":x}.get(f); return C(v,n) if v is not None else None
            return None
        return own
    def delete(s):
        ctx=s.ctx
        for rows in range(5):
            for fail in[None]+list(range(rows)):
                def own(p,I,n,m,M):
                    g=field(p); return ("TABLE",0) if g and g[0]=="DV" and g[2]=="table" and not n else None
                views={"TABLE":{"columns":[("a",1)],"rows":rows},"fails":{("delete",fail):7} if fail is not None else {}}; ctx.count("statements")
                rec=[("text","w")]
                out,loc=s.go("delete_view_execute",[("DV",0),("REC",0)],own,s.slots(views),recs=[("REC",rec)])
                for kd,b,v,e,w in out:
                    ctx.ok(); got=[x[1] for x in events(w,"delete")]; ex=events(w,"execute")
                    if ex!=[("TABLE",((1,("text","w")),))]: ctx.find("delete:condition",loc,"the condition of DELETE gets the values %s"%(ex,))
                    if fail is not None:
                        if k(v)==0: ctx.find("delete:failed",loc,"DELETE succeeds although a row could not be removed")
                    elif got!=list(range(rows))[::-1]: ctx.find("delete:rows",loc,"DELETE of %d rows removes %s one after the other: the rows after a removed one move"%(rows,got))
                    elif k(v)!=0: ctx.find("delete:result",loc,"DELETE of %d rows fails"%rows)
