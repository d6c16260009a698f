"""Merging: the whole merge of two databases is interpreted at the level of bits, down to the queries it asks and the rows
it inserts, which are answered from modelled databases; the result is compared with what a merge is documented to do."""
from steps import *
from cmodel import *
from bits import root
from recmodel import *
import re
MINIMUM={"merges":60}
NULLI=0x80000000
OPAQUE={"msi_add_table_to_db"}
def run(ctx):
    P=ctx.prog("libmsi"); T=Merge(ctx,P)
    for what,db,mg,kw in cases(): T.case(what,db,mg,**kw)
    T.failures()
    ctx.rule("A merge adds every row of the other database that this one does not have to the table of its name, which is created if there is none; rows with the same keys and other values are conflicts, counted for their table, whose rows are then not added, and make the merge fail; tables that do not fit make it fail before anything is changed.")
class Table:
    def __init__(s,cols,rows):
        s.cols=[c.split() for c in cols]      # "Name type [key]"
        s.rows=[tuple(r) for r in rows]
    names=property(lambda s:[c[0] for c in s.cols]); types=property(lambda s:[c[1] for c in s.cols])
    keys=property(lambda s:[c[0] for c in s.cols if len(c)>2])
def fv(x): return None if x is None else ("int",x&0xffffffff) if isinstance(x,int) else ("stream",(x[0],0)) if isinstance(x,tuple) else ("text",x)
AB=["A s20 key","B S0","N I2"]
def cases():
    t=lambda rows,cols=AB: Table(cols,rows)
    one={"T":t([("x","1",1),("y",None,None)])}
    yield "into an empty database",{},{"T":t([("x","1",1),("y","2",None)])},{}
    yield "of an empty database",one,{},{}
    yield "of an empty table",one,{"T":t([])},{}
    yield "of an empty new table",{},{"T":t([])},{}
    yield "of other rows",one,{"T":t([("p","3",4),("q","1",1)])},{}
    yield "of the same rows",one,{"T":t([("x","1",1),("y",None,None)])},{}
    yield "of some of the same rows",one,{"T":t([("w","1",1),("x","1",1),("z","1",1)])},{}
    yield "of a row that differs",one,{"T":t([("a","1",1),("x","1",2),("z","1",1)])},{"conflicts":{"T":1}}
    yield "of rows that differ",one,{"T":t([("x","9",1),("y","1",None)])},{"conflicts":{"T":2}}
    yield "of a row with an empty field that differs",one,{"T":t([("x",None,1)])},{"conflicts":{"T":1}}
    yield "of keys with quotes",one,{"T":t([("it's","1",1),("a`b","2",2)])},{}
    two=["A s20 key","K i2 key","L I4","V s0"]
    b={"T":t([("x",1,-5,"v"),("x",2,7,"w")],two)}
    yield "of rows with two keys",b,{"T":t([("x",3,1,"v"),("y",1,1,"v"),("x",1,-5,"v")],two)},{}
    yield "of rows with two keys that differ",b,{"T":t([("x",2,8,"w"),("y",2,8,"w")],two)},{"conflicts":{"T":1}}
    yield "of rows with negative keys",{"T":t([("x",-1,0,"v")],two)},{"T":t([("x",-1,0,"v"),("x",-2,0,"v")],two)},{}
    late=["V s0","A S20 key","K I2 key"]
    yield "of rows with null keys",{"T":t([("v","a",None),("w","b",3)],late)},{"T":t([("v","a",None),("v","c",None),("u",None,None)],late)},{}
    yield "of rows with null keys that differ",{"T":t([("v","a",None)],late)},{"T":t([("w","a",None)],late)},{"conflicts":{"T":1}}
    yield "of rows whose first key is null",{"T":t([("v",None,3),("w","b",3)],late)},{"T":t([("v",None,3),("v",None,4),("u","c",3)],late)},{}
    yield "of rows whose first key is null that differ",{"T":t([("v",None,3)],late)},{"T":t([("w",None,3)],late)},{"conflicts":{"T":1}}
    yield "of several tables",{"T":t([("x","1",1)]),"U":t([("u","1",1)])},{"U":t([("u","1",1),("w","2",1)]),"New":t([("n","3",3)]),"T":t([("z","1",1)])},{}
    yield "of tables of which one differs",{"T":t([("x","1",1)]),"U":t([("u","1",1)])},{"T":t([("x","7",1),("o","1",1)]),"U":t([("w","1",1)]),"Order":t([("n","1",1)])},{"conflicts":{"T":1}}
    yield "of tables of which two differ",{"T":t([("x","1",1)]),"U":t([("u","1",1)]),"W":t([])},{"T":t([("x","7",1),("o","1",1)]),"W":t([("k","1",2)]),"U":t([("u","1",3),("v","1",1)])},{"conflicts":{"T":1,"U":1}}
    yield "of tables of which the first fits",{"T":t([("x","1",1)]),"U":t([("u","1",1)])},{"T":t([("o","1",1)]),"U":t([("u","1",3)])},{"conflicts":{"U":1}}
    yield "of a table with streams",{},{"Binary":t([("a",("STM1",)),("b",("STM2",))],["Name s72 key","Data v0"])},{}
    yield "of a table with the same schema but other lengths of text",{"T":t([],["A s20 key","B L0","C l0"])},{"T":t([("x","y","z")],["A s72 key","B S255","C s8"])},{"differs":True}
    def lt(a,b): return {"T":t([],["A s20 key","B "+a])},{"T":t([("x","y" if b[0] in"sSlL" else 3)],["A s20 key","B "+b])}
    for a,b,ok in(("s0","l0",1),("l8","s255",1),("L0","S72",1),("S5","L5",1),("s5","S5",0),("S5","s5",0),("l5","L5",0),("L5","l5",0),("i2","i2",1),("i2","I2",0),("i2","i4",0),("I4","I2",0),("s0","i2",0),("i2","s0",0),("L0","I2",0),("I4","S4",0),("I4","I4",1),("v0","V0",0)):
        d,m=lt(a,b); yield "of a column of type %s into one of type %s"%(b,a),d,m,{"refused":not ok}
    for cols in(["X s20 key","B S0","N I2"],["A s20 key","N S0","B I2"],["A s20 key","B S0","M I2"],["A s20","B S0 key","N I2"],["A s20 key","B S0 key","N I2"]):
        yield "of a table of other columns or keys %s"%cols,{"T":t([],AB)},{"T":t([("x","1",1)],cols)},{"refused":True}
        yield "of a table of other columns or keys %s, after another"%cols,{"T":t([],AB),"O":t([],AB)},{"O":t([("o","1",1)]),"T":t([("x","1",1)],cols)},{"refused":True}
class Merge:
    def __init__(s,ctx,P):
        s.ctx,s.P=ctx,P; s.F=ctx.need(P.fn("libmsi_database_merge"),"libmsi_database_merge not found")
        s.loc=P.loc(s.F.blocks[0].insts[0]); s.en={n:P.enum(n) for n in("LIBMSI_COL_INFO_NAMES","LIBMSI_COL_INFO_TYPES")}
        s.NOMORE=0x7fffffff
        s.inline={n for n,G in P.fns.items() if G.file==s.F.file}-OPAQUE
        ctx.fns([n for n in s.inline if "merge" in n or n in("create_diff_row_query","msi_get_query_columns","msi_get_query_types","msi_get_table_labels")])
    # ---- the modelled databases and queries
    def go(s,db,mg,table="Errs",fail=None,limit=400000):
        """fail: (name of a step, its how-many-th call) that fails"""
        P=s.P; M=CModel(P); RM=Records(M); m={}; D={"DB":dict(db),"MG":dict(mg)}; s.M=M
        M.place(m,table or "",("txt","errs"))
        def nth(w,n): return sum(1 for x in w if x[0]==("event","step") and x[1][0]==n)
        def step(w,n,I,*x):
            i=nth(w,n); w.append((("event","step"),(n,)+x,I)); return fail==(n,i)
        def tabs(w,d):
            """the tables of a database after what was done to it"""
            t={n:Table([" ".join(c) for c in T.cols],T.rows) for n,T in D.get(d,{}).items()}
            for a,v,I in w:
                if a==("event","create") and v[0]==d: t[v[1]]=Table(v[2],[])
                if a==("event","row") and v[0]==d and v[1] in t: t[v[1]].rows.append(v[2])
            return t
        def sql(I,m,w,d,text):
            """a query: returns its object, or None"""
            q=("query",len([1 for x in w if x[0]==("event","query")])); w.append((("event","query"),(q,d[0] if isinstance(d,tuple) else None,text),I))
            if text is None: w.append((("event","unknown"),"query",I)); return None
            g=re.match(r"(?i)\s*select\s+\*\s+from\s+(?:`([^`]+)`|(\w+))\s*(?:where\s+(.*))?$",text)
            if g:
                n=g.group(1) or g.group(2); conds=[]
                if n not in("_Tables",) and n not in tabs(w,d[0]): return None
                if not g.group(1) and n.lower() in("order","table","key","select"): return None
                for c in re.split(r"(?i)\s+and\s+(?=`?\w+`?\s*(?:=|is))",g.group(3) or ""):
                    if not c: continue
                    h=re.match(r"(?i)(?:`([^`]+)`|(\w+))\s*(?:(=)\s*(?:'([^']*)'|(\?)|(-?\d+))|is\s+null)\s*$",c)
                    if not h: return None
                    col=h.group(1) or h.group(2)
                    conds.append((col,("null",) if not h.group(3) else ("lit",h.group(4)) if h.group(4) is not None else ("param",) if h.group(5) else ("lit",int(h.group(6)))))
                m[("q",q)]=("select",d[0],n,tuple(conds)); return (q,0)
            g=re.match(r"(?i)\s*create\s+table\s+`([^`]+)`\s*\((.*)\)\s*$",text)
            if g: m[("q",q)]=("create",d[0],g.group(1),g.group(2)); return (q,0)
            g=re.match(r"(?i)\s*insert\s+into\s+`([^`]+)`\s*\((.*?)\)\s*values\s*\((.*)\)\s*$",text)
            if g: m[("q",q)]=("insert",d[0],g.group(1),g.group(2),g.group(3)); return (q,0)
            return None
        def qnew(I,a,m,w):
            if step(w,"query",I,M.str(m,a[1])): return ("null",0)
            return sql(I,m,w,a[0],M.str(m,a[1])) or ("null",0)
        def qopen(I,a,m,w):
            t=M.format(m,a[2],a[3:]); t=bytes(x.const() for x in t).decode() if t is not None else None
            bad=step(w,"query",I,t); q=None if bad else sql(I,m,w,a[0],t); m[a[1]]=q or ("null",0); return C(0 if q else 1)
        def dbopen(I,a,m,w):
            t=M.str(m,a[1]); bad=step(w,"query",I,t); q=None if bad else sql(I,m,w,a[0],t); m[a[2]]=q or ("null",0); return C(0 if q else 1)
        def rowsof(q,m,w,params):
            kind,d,n,conds=m[("q",q)]; t=tabs(w,d)
            if n=="_Tables": return [(x,) for x in t]
            T=t[n]; ps=list(params); want=[]
            for col,c in conds:
                if col not in T.names: return None
                if c[0]=="param":
                    if not ps: return None
                    want.append((T.names.index(col),ps.pop(0)))
                else: want.append((T.names.index(col),None if c[0]=="null" else fv(c[1])))
            norm=lambda x:None if x==("text","") else x
            return [r for r in T.rows if all(norm(fv(r[i]))==norm(v) for i,v in want)]
        def execute(I,a,m,w):
            q=a[0][0] if isinstance(a[0],tuple) else None; x=m.get(("q",q))
            if step(w,"execute",I,x[0] if x else None) or not x: return C(7)
            if x[0]=="select":
                ps=[]
                if isinstance(a[1],tuple) and a[1]!=("null",0):
                    f=dict(RM.all(m,a[1])); ps=[f.get(i+1) for i in range(m.get(("count",a[1][0])) or 0)]
                r=rowsof(q,m,w,ps)
                if r is None: return C(7)
                m[("rows",q)]=tuple(r); m[("pos",q)]=0; return C(0)
            t=tabs(w,x[1])
            if x[0]=="create":
                if x[2] in t: return C(7)
                w.append((("event","create"),(x[1],x[2],[y.strip() for y in x[3].split(",")]),I)); return C(0)
            cols=[y.strip().strip("`") for y in x[3].split(",")]; vals=[y.strip() for y in x[4].split(",")]
            w.append((("event","report"),(x[1],x[2],tuple(zip(cols,[y[1:-1] if y[:1]=="'" else int(y) if re.match(r"-?\d+$",y) else y for y in vals]))),I)); return C(0)
        def record(m,w,I,r):
            b=("rec","r",sum(1 for x in w if x[0]==("event","newrec"))); w.append((("event","newrec"),None,I)); RM.put(m,b,[fv(x) for x in r]); return (b,0)
        def fetch(I,a,m,w):
            q=a[0][0] if isinstance(a[0],tuple) else None
            if step(w,"fetch",I): return C(7)
            r=m.get(("rows",q))
            if r is None: return C(7)
            i=m[("pos",q)]
            if i>=len(r): return C(s.NOMORE)
            m[("pos",q)]=i+1; m[a[1]]=record(m,w,I,r[i]); return C(0)
        def colinfo(I,a,m,w):
            q=a[0][0] if isinstance(a[0],tuple) else None; x=m.get(("q",q))
            if step(w,"columns",I) or not x or x[0]!="select": return C(7)
            T=tabs(w,x[1])[x[2]]; m[a[2]]=record(m,w,I,T.names if k(a[1])==s.en["LIBMSI_COL_INFO_NAMES"] else T.types); return C(0)
        def pkeys(I,a,m,w):
            n=M.str(m,a[1]); t=tabs(w,a[0][0])
            if step(w,"keys",I,n) or n not in t: return C(7)
            p=record(m,w,I,t[n].keys); m[a[2]]=p; m[("fld",(p[0],0))]=("text",n); return C(0)
        def exists(I,a,m,w):
            n=M.str(m,a[1]); y=n in tabs(w,a[0][0]); return C(y,1) if I.ty=="i1" else C(y)
        def view(I,a,m,w):
            n=M.str(m,a[1]); t=tabs(w,a[0][0])
            if step(w,"view",I,n) or n not in t: return C(7)
            m[a[2]]=(("view",a[0][0],n),0); return C(0)
        def insert(I,a,m,w):
            v=a[0][0]; f=dict(RM.all(m,a[1])); n=m.get(("count",a[1][0]))
            if step(w,"insert",I,v[2]): return C(7)
            T=tabs(w,v[1])[v[2]]; row=tuple(next((x if not isinstance(f.get(i+1),tuple) else None for x in[None]),None) if f.get(i+1) is None else (f[i+1][1] if f[i+1][0]!="int" else (f[i+1][1]^0x80000000)-0x80000000) for i in range(len(T.cols)))
            row=tuple((x[0],) if isinstance(x,tuple) else x for x in row)
            w.append((("event","row"),(v[1],v[2],row,k(a[2]),k(a[3]),n),I)); return C(0)
        def add(I,a,m,w):
            names,types,labels,nl,nc=a[1],a[2],a[3],k(a[4]),k(a[5])
            g=lambda p,i:M.str(m,m.get((p[0],p[1]+8*i)))
            if step(w,"create",I) or nl is None or nc is None or not all(isinstance(x,tuple) for x in(names,types,labels)): return C(7)
            lb=[g(labels,i) for i in range(nl)]; cols=[(g(names,i),g(types,i)) for i in range(nc)]
            w.append((("event","create"),(a[0][0],lb[0] if lb else None,["%s %s%s"%(x,y," key" if x in lb[1:] else "") for x,y in cols]),I)); return C(0)
        def clone(I,a,m,w):
            if step(w,"clone",I): return ("null",0)
            b=("rec","c",sum(1 for x in w if x[0]==("event","newrec"))); w.append((("event","newrec"),None,I)); m[("count",b)]=m.get(("count",a[0][0]))
            for i in range((m.get(("count",a[0][0])) or 0)+1):
                x=m.get(("fld",(a[0][0],i)))
                if x is not None: m[("fld",(b,i))]=x
            return (b,0)
        def compare(I,a,m,w):
            y=m.get(("count",a[0][0]))==m.get(("count",a[1][0])) and RM.all(m,a[0])==RM.all(m,a[1]) and not any(x[1][0]=="stream" for x in RM.all(m,a[0])); return C(y,1) if I.ty=="i1" else C(y)
        def dup(I,a,m,w):
            x=RM.get(m,a[0],a[1])
            return M.fresh(I,m,w,[C(c,8) for c in x[1].encode()]) if x and x[0]=="text" else ("null",0)
        def iterate(R,I,a,m,w):
            """rows handed to a function until it fails"""
            m=dict(m); w=list(w); q=a[0]; r=execute(I,[q,("null",0)],m,w)
            if k(r)!=0: return [(r,m,w)]
            rows=m[("rows",q[0])]; st=[(m,w)]; out=[]
            G=P.fns.get(a[2][0][1]) if isinstance(a[2],tuple) and isinstance(a[2][0],tuple) and a[2][0][0]=="g" else None
            for x in rows:
                nx=[]
                for m1,w1 in st:
                    m1,w1=dict(m1),list(w1)
                    if step(w1,"fetch",I): out.append((C(7),m1,w1)); continue
                    rec=record(m1,w1,I,x)
                    if G is None: nx.append((m1,w1)); continue
                    Q=type(R)(P,G,m1,R.calls,R.limit-R.n,R.loads,R.inline,(R.tag,I.id,rec[0][2]),True)
                    for kd,b,v,e,w2 in Q.run(0,{("a",0):rec,("a",1):a[3]},w=w1):
                        if k(v)==0: nx.append((e["mem"],w2))
                        else: out.append((v,e["mem"],w2))
                    R.n+=Q.n
                st=nx
            return out+[(C(0),m1,w1) for m1,w1 in st]
        iterate.fork=True
        def err(I,a,m,w): w.append((("event","error"),a[0],I)); return None
        M.calls.update(RM.calls())
        M.calls.update({"libmsi_query_new":qnew,"_libmsi_query_open":qopen,"_libmsi_database_open_query":dbopen,"_libmsi_query_execute":execute,"_libmsi_query_fetch":fetch,"_libmsi_query_get_column_info":colinfo,
            "_libmsi_database_get_primary_keys":pkeys,"table_view_exists":exists,"table_view_create":view,"_LibmsiViewOps->insert_row":insert,"_LibmsiViewOps->delete":lambda I,a,m,w:C(0),"msi_add_table_to_db":add,
            "_libmsi_record_clone":clone,"_libmsi_record_compare":compare,"msi_dup_record_field":dup,"_libmsi_query_iterate_records":iterate,"g_set_error":err,"g_set_error_literal":err,
            "g_type_check_instance_is_a":lambda I,a,m,w:C(1),"libmsi_database_get_type":lambda I,a,m,w:C(77,64),"g_clear_error":lambda I,a,m,w:None,"libmsi_result_error_quark":lambda I,a,m,w:C(5)})
        O=Objects(P)
        def own(p,I,n,mm):
            if p==(("view",)+p[0][1:],0) if isinstance(p[0],tuple) and p[0][:1]==("view",) else False: return ("OPS",0)
            if p[0]=="OPS" and n is None: return (("slot",p[1]),0)
            return O.load(p,n)
        M.own=own; m[("ERR",0)]=("null",0)
        for d in("DB","MG"): m[(d,0)]=("class",0)
        m[("class",0)]=C(77,64)
        R=Region(P,s.F,m,M.calls,limit,M.loads,s.inline-set(M.calls),None,True)
        out=R.run(0,{("a",0):("DB",0),("a",1):("MG",0),("a",2):(("txt","errs"),0) if table else ("null",0),("a",3):("ERR",0)})
        s.ctx.stuck(out,"libmsi_database_merge",s.loc)
        return [(k(v),tabs(w,"DB"),events(w,"row"),events(w,"create"),events(w,"report"),bool(events(w,"error")),w) for kd,b,v,e,w in out]
    def case(s,what,db,mg,conflicts=None,refused=False,differs=False):
        ctx=s.ctx; find=lambda key,t: ctx.find(key,s.loc,"a merge %s %s"%(what,t)); conflicts=conflicts or {}
        for table in("Errs",None):
            if table and "Errs" in db: continue
            ctx.count("merges"); res=s.go(db,mg,table)
            if len(res)>4: ctx.find("undecided",s.loc,"a merge %s is not decided by the contents of the databases"%what)
            for v,tabs,rows,created,report,err,w in res:
                ctx.ok()
                if any(x[0]==("event","unknown") for x in w): find("query","asks a query whose text is not decided"); continue
                if any(x[0]!="DB" for x in rows+created+report): find("other","changes the other database"); continue
                if differs:
                    # which lengths fit is not said; nothing may be lost silently
                    if v and set(map(repr,mg["T"].rows))-set(map(repr,tabs["T"].rows)): find("lost","succeeds without its rows")
                    continue
                ok=not refused and not conflicts
                if refused:
                    if v!=0: find("unfit","which does not fit succeeds")
                    elif rows or created: find("unfit:changed","which does not fit fails, but changes the database")
                    continue
                if (v!=0)!=ok: find("result","%s"%("fails" if ok else "succeeds in spite of conflicts")); continue
                if err!=(not ok): find("error","%s"%("sets an error although it succeeds" if ok else "fails without an error")); continue
                want={n:list(T.rows) for n,T in db.items()}; order={}
                for n,T in mg.items():
                    if n in conflicts: continue
                    have=db[n].rows if n in db else []
                    want.setdefault(n,[]); order[n]=[r for r in T.rows if r not in have]; want[n]+=order[n]
                got={n:T.rows for n,T in tabs.items() if n!="Errs" or "Errs" in mg}
                if set(got)!=set(want): find("tables","leaves the tables %s instead of %s"%(sorted(got),sorted(want))); continue
                for n in want:
                    if got[n]!=want[n]: find("rows","leaves the rows %s in table %s instead of %s"%(got[n],n,want[n])); break
                for n,T in tabs.items():
                    if n in mg and n not in db and [c[:2]+(["key"] if c[0] in T.keys else []) for c in T.cols]!=mg[n].cols: find("schema","creates table %s with the columns %s instead of %s"%(n,T.cols,mg[n].cols))
                for d,n,r,at,temp,c in rows:
                    if temp: find("temporary","adds rows that are not saved")
                    if at!=0xffffffff: find("place","does not add rows at the place of their keys")
                rep=sorted((dict(x[2]).get("Table"),dict(x[2]).get("NumRowMergeConflicts")) for x in report)
                if table:
                    if rep!=sorted(conflicts.items()) or any(x[1]!="Errs" for x in report): find("report","reports the conflicts %s instead of %s"%(rep,sorted(conflicts.items())))
                elif report or any(x[1] not in mg for x in created): find("report:none","reports conflicts although there is no table for them")
    def failures(s):
        """every step that fails makes the merge fail"""
        for u in(("u","2",1),("w","2",1)): s.failing({"T":Table(AB,[("x","1",1)]),"U":Table(AB,[("u","1",1)])},{"T":Table(AB,[("y","2",2),("x","1",1)]),"N":Table(AB,[("n","1",1)]),"U":Table(AB,[u])})
    def failing(s,db,mg):
        steps={}
        for r in s.go(db,mg):
            for x in events(r[6],"step"): steps[x[0]]=0
            for n in steps: steps[n]=max(steps[n],sum(1 for x in events(r[6],"step") if x[0]==n))
        for n,c in sorted(steps.items()):
            for i in range(c):
                s.ctx.count("failing steps")
                for v,tabs,rows,created,report,err,w in s.go(db,mg,"Errs",(n,i)):
                    s.ctx.ok()
                    if v!=0: s.ctx.find("failed:"+n,s.loc,"a merge succeeds although %s %d fails"%(n,i+1))
                    elif not err: s.ctx.find("failed:error",s.loc,"a merge fails without an error when %s %d fails"%(n,i+1))
