"""What a query yields: the functions that find, order, select and fetch rows are interpreted at the level of bits on
concrete tables, and the rows, columns and values they give are compared with those the query describes."""
from steps import *
from recmodel import *
import itertools,functools,re,os
MINIMUM={"queries":60,"reads":150,"rows fetched":60,"columns looked for":30}
VALID,KEY,NUL,STR=0x100,0x2000,0x1000,0x800
TY={"s":VALID|2|NUL,"l":VALID|4|NUL,"t":VALID|STR|72|NUL,"b":VALID|STR|NUL,"k":VALID|STR|KEY|72}
def H(n): return ("heap",n)
class Base:
    FILES=("where.c","select.c","distinct.c","libmsi-query.c")
    def __init__(s,ctx,P):
        s.ctx,s.P=ctx,P; from prep import REPO
        tx=open(os.path.join(REPO,"libmsi","query.h")).read()
        s.defs={a:int(b,0) for a,b in re.findall(r"#\s*define\s+((?:EXPR|OP)_\w+)\s+(\w+)\s*$",tx,re.M)}
        s.ctx.need(len(s.defs)>=20,"the kinds of expressions are no longer defined in query.h")
    def num(s,x): return None if x is None or isinstance(x,tuple) else k(x)
    def inline(s,F): return {n for n,G in s.P.fns.items() if G.file==F.file or G.file.rsplit("/",1)[-1] in s.FILES}
    def go(s,name,args,O=None,calls=None,m=None,recs=(),limit=400000,mem=None):
        F=s.ctx.need(s.P.fn(name),name+" not found"); s.ctx.fns([name]); loc=s.P.loc(F.blocks[0].insts[0])
        M=CModel(s.P); m=dict(mem if mem is not None else m or {}); RM=Records(M); s.M,s.RM=M,RM
        for r,f in recs: RM.put(m,r,f)
        M.own=lambda p,I,n,mm:O.load(p,n) if O else None
        M.calls.update(RM.calls()); M.calls.update(calls or {})
        R=Region(s.P,F,m,M.calls,limit,M.loads,s.inline(F)-set(M.calls)); out=R.run(0,{("a",i):x for i,x in enumerate(args)})
        s.ctx.stuck(out,name,loc); return out,loc
    def views(s,V,fail=None):
        """hooks for the functions of the views below; V: object -> {"types":[..],"rows":[[stored values]],"names":[..],"table":name}"""
        def v(a): return V.get(a[0][0]) if isinstance(a[0],tuple) else None
        def dims(I,a,m,w):
            x=v(a)
            if x is None: return C(7)
            if a[1]!=("null",0): m[a[1]]=C(len(x["rows"]))
            if a[2]!=("null",0): m[a[2]]=C(len(x["types"]))
            return C(0)
        def info(I,a,m,w):
            x=v(a); i=k(a[1])
            w.append((("event","info"),(a[0][0] if isinstance(a[0],tuple) else None,i),I))
            if x is None or i is None or not 1<=i<=len(x["types"]): return C(6)
            if a[2]!=("null",0): m[a[2]]=s.M.place(m,x["names"][i-1],("txt",x["names"][i-1]))
            if a[3]!=("null",0): m[a[3]]=C(TY[x["types"][i-1]])
            if a[4]!=("null",0): m[a[4]]=C(0,8)
            if a[5]!=("null",0): m[a[5]]=s.M.place(m,x["table"],("txt",x["table"]))
            return C(0)
        def fetch(I,a,m,w):
            x=v(a); r,c=k(a[1]),k(a[2]); w.append((("event","fetch"),(a[0][0] if isinstance(a[0],tuple) else None,r,c),I))
            if x is None or r is None or c is None or not 0<=r<len(x["rows"]) or not 1<=c<=len(x["types"]): return C(6)
            if fail==(a[0][0],r,c): return C(9)
            y=x["rows"][r][c-1]; m[a[3]]=C(y if isinstance(y,int) else 1); return C(0)
        def stream(I,a,m,w):
            x=v(a); r,c=k(a[1]),k(a[2]); w.append((("event","stream"),(a[0][0] if isinstance(a[0],tuple) else None,r,c),I))
            if x is None or r is None or c is None or not 0<=r<len(x["rows"]) or not 1<=c<=len(x["types"]): return C(6)
            if fail==(a[0][0],r,c): return C(9)
            m[a[3]]=(("heap","STM",a[0][0],r,c),0); return C(0)
        def execute(I,a,m,w): w.append((("event","execute"),(a[0][0] if isinstance(a[0],tuple) else None,a[1]),I)); return C(9 if fail==("execute",a[0][0]) else 0)
        def close(I,a,m,w): w.append((("event","close"),a[0],I)); return C(0)
        lookup=lambda I,a,m,w:s.M.place(m,"str%d"%k(a[1]),("heap","txt",k(a[1]))) if k(a[1]) else ("null",0)
        sort=lambda I,a,m,w:s.sort(I,a,m,w,V,fail)
        return {"_LibmsiViewOps->get_dimensions":dims,"_LibmsiViewOps->get_column_info":info,"_LibmsiViewOps->fetch_int":fetch,"_LibmsiViewOps->fetch_stream":stream,"_LibmsiViewOps->execute":execute,"_LibmsiViewOps->close":close,"msi_string_lookup_id":lookup,"qsort":sort}
    def sort(s,I,a,m,w,V,fail):
        """orders an array of pointers by interpreting the function given for comparing them"""
        n=k(a[1]); f=a[3]
        if n is None or not isinstance(f,tuple) or not isinstance(a[0],tuple): return None
        G=s.P.fns.get(f[0][1]) if isinstance(f[0],tuple) and f[0][0]=="g" else None
        s.ctx.need(G,"the function that compares rows is not known")
        slots=[(a[0][0],a[0][1]+8*i) for i in range(n)]; ptr=[m.get(x) for x in slots]
        if None in ptr: s.ctx.find("sort:lost",s.P.loc(I),"%d rows are ordered, but not all exist"%n); return None
        bad=[]; calls=s.views(V,fail)
        def cmp(x,y):
            m2=dict(m); m2[("SLOT1",0)]=x; m2[("SLOT2",0)]=y
            c=dict(s.M.calls); r=[]
            for kd,b,v,e,w2 in Region(s.P,G,m2,c,20000,s.M.loads,s.inline(G)-set(c)).run(0,{("a",0):("SLOT1",0),("a",1):("SLOT2",0)}):
                r.append(k(v))
                for q,val in e["mem"].items():
                    if isinstance(q,tuple) and len(q)==2 and isinstance(q[0],tuple) and q[0][0]!="al" and m.get(q)!=val: m[q]=val
            if len(r)!=1 or r[0] is None: bad.append(I); return 0
            return r[0]-(1<<32) if r[0]>>31 else r[0]
        ptr.sort(key=functools.cmp_to_key(cmp))
        if bad: s.ctx.find("sort:undecided",s.P.loc(I),"the order of two rows is not decided by their values")
        for x,y in zip(slots,ptr): m[x]=y
        return None
# ---------------------------------------------------------------------- finding and ordering rows
def short(v): return 0 if v is None else v+0x8000
def long_(v): return 0 if v is None else (v+0x80000000)&0xffffffff
class Where(Base):
    def tables(s,O,V,tabs,order):
        """the list of joined tables; the rows of each are given by values"""
        n=len(tabs)
        for pos,i in enumerate(order):
            O.put("JT%d"%i,"tagJOINTABLE",next=(H("JT%d"%order[pos+1]),0) if pos+1<n else 0,view=(H("VW%d"%i),0),col_count=len(tabs[i]["types"]),row_count=len(tabs[i]["rows"]),table_index=i)
            V[H("VW%d"%i)]={"types":tabs[i]["types"],"names":tabs[i].get("names") or ["c%d"%j for j in range(len(tabs[i]["types"]))],"table":tabs[i].get("name","T%d"%i),
                "rows":[[ (short(x) if t=="s" else long_(x) if t=="l" else (x or 0)) if isinstance(x,(int,type(None))) else x for t,x in zip(tabs[i]["types"],r)] for r in tabs[i]["rows"]]}
        O.put("WV","_LibmsiWhereView",tables=(H("JT%d"%order[0]),0),db=("DB",0),row_count=0,col_count=sum(len(t["types"]) for t in tabs),table_count=n,reorder=0,reorder_size=0,cond=0,rec_index=0,order_info=0)
    def cond(s,O,tabs,c,cnt):
        """an expression tree"""
        D=s.defs; u=struct_off(s.P,"expr","u"); nm="E%d"%cnt[0]; cnt[0]+=1; p=(H(nm),0); op,l,r=(struct_off(s.P,"complex_expr",x) for x in("op","left","right"))
        ty=lambda v:O.at(nm,struct_off(s.P,"expr","type"),v)
        if c[0]=="col":
            t=tabs[c[1]]["types"][c[2]-1]; ty(D[{"s":"EXPR_COL_NUMBER","l":"EXPR_COL_NUMBER32"}.get(t,"EXPR_COL_NUMBER_STRING")]); O.at(nm,u,c[2]); O.at(nm,u+8,(H("JT%d"%c[1]),0))
        elif c[0]=="int": ty(D["EXPR_UVAL"]); O.at(nm,u,c[1])
        elif c[0]=="str": ty(D["EXPR_SVAL"]); O.at(nm,u,(H("TXT"+c[1]),0)); s.texts[H("TXT"+c[1])]=c[1]
        elif c[0]=="?": ty(D["EXPR_WILDCARD"])
        elif c[0] in("null","notnull"): ty(D["EXPR_UNARY"]); O.at(nm,u+op,D["OP_ISNULL" if c[0]=="null" else "OP_NOTNULL"]); O.at(nm,u+l,s.cond(O,tabs,c[1],cnt))
        else:
            st=lambda x:x[0]=="str" or x[0]=="col" and tabs[x[1]]["types"][x[2]-1] not in"sl"
            ty(D["EXPR_STRCMP" if st(c[1]) or st(c[2]) else "EXPR_COMPLEX"]); O.at(nm,u+op,D[{"=":"OP_EQ","<>":"OP_NE","and":"OP_AND","or":"OP_OR","<":"OP_LT",">":"OP_GT","<=":"OP_LE",">=":"OP_GE"}[c[0]]])
            O.at(nm,u+l,s.cond(O,tabs,c[1],cnt)); O.at(nm,u+r,s.cond(O,tabs,c[2],cnt))
        return p
    def value(s,tabs,rows,c,par):
        """the value of a condition; `par` gives the parameters in order"""
        if c is None: return True
        if c[0]=="col":
            x=tabs[c[1]]["rows"][rows[c[1]]][c[2]-1]
            return ("str%d"%x if x else "") if tabs[c[1]]["types"][c[2]-1] not in"sl" else x
        if c[0] in("int","str"): return c[1]
        if c[0]=="?": return next(par)
        if c[0]=="null": return s.value(tabs,rows,c[1],par) in(None,"")
        if c[0]=="notnull": return s.value(tabs,rows,c[1],par) not in(None,"")
        a=s.value(tabs,rows,c[1],par); b=s.value(tabs,rows,c[2],par)
        return {"=":lambda:a==b,"<>":lambda:a!=b,"and":lambda:bool(a and b),"or":lambda:bool(a or b),"<":lambda:a<b,">":lambda:a>b,"<=":lambda:a<=b,">=":lambda:a>=b}[c[0]]()
    def query(s,tabs,cond=None,par=None,order=(),listorder=None,fail=None,again=False):
        O=Objects(s.P); V={}; n=len(tabs); s.texts={}; s.ctx.count("queries")
        s.tables(O,V,tabs,listorder or list(range(n))[::-1])
        if cond: O.put("WV","_LibmsiWhereView",cond=s.cond(O,tabs,cond,[0]))
        if order:
            O.put("WV","_LibmsiWhereView",order_info=(H("ORD"),0)); O.put("ORD","_LibmsiOrderInfo",col_count=len(order),error=77)
            b=struct_off(s.P,"_LibmsiOrderInfo","columns"); z=struct_size(s.P,"ext_column")
            for i,(t,c) in enumerate(order): O.at("ORD",b+z*i,c); O.at("ORD",b+z*i+8,(H("JT%d"%t),0))
        m={}; M0=CModel(s.P)
        for x,t in s.texts.items(): M0.put(m,[],(x,0),[C(y,8) for y in t.encode()]+[C(0,8)],None)
        rec=[("text",x) if isinstance(x,str) else ("int",x&0xffffffff) for x in par or []]
        out,loc=s.go("where_view_execute",[(H("WV"),0),("REC",0) if par is not None else ("null",0)],O,s.views(V,fail),m=m,recs=[("REC",rec)] if par is not None else [])
        if again:
            # executed once more: nothing is left of the first result
            s.ctx.need(len(out)==1,"a query has more than one result"); 
            out,loc=s.go("where_view_execute",[(H("WV"),0),("REC",0) if par is not None else ("null",0)],O,s.views(V,fail),mem=out[0][3]["mem"])
        want=[r for r in itertools.product(*[range(len(t["rows"])) for t in tabs]) if s.value(tabs,r,cond,iter(par or []))]
        key=lambda r:[V[H("VW%d"%t)]["rows"][r[t]][c-1] for t,c in order]+list(r)
        want.sort(key=key); got=[]
        for kd,b,v,e,w in out:
            s.ctx.ok(); mm=e["mem"]; cell=lambda S,f:next((x for p,x in mm.items() if isinstance(p,tuple) and len(p)==2 and flat(s.P,p)==(H("WV"),struct_off(s.P,S,f))),None)
            rc=k(cell("_LibmsiWhereView","row_count") or C(0)); reo=cell("_LibmsiWhereView","reorder"); rows=[]
            fl={}
            for p,x in mm.items():
                if isinstance(p,tuple) and len(p)==2 and isinstance(p[0],tuple):
                    q=flat(s.P,p)
                    if q: fl[q]=x
            vo=struct_off(s.P,"_LibmsiRowEntry","values")
            for i in range(rc or 0):
                ent=fl.get((reo[0],reo[1]+8*i)) if isinstance(reo,tuple) else None
                x=fl.get
                rows.append(tuple(k(fl.get((ent[0],ent[1]+vo+4*j),top(32))) for j in range(n)) if isinstance(ent,tuple) else None)
            got.append((k(v),rows,w))
        return got,want,loc
    def run(s):
        ctx=s.ctx
        A={"types":"stl","rows":[(5,1,100),(-3,2,None),(7,1,70000),(5,None,-1)]}
        B={"types":"ts","rows":[(2,5),(1,7),(3,-3)]}
        E={"types":"l","rows":[(70000,),(100,)]}
        Z={"types":"s","rows":[]}
        col=lambda t,c:("col",t,c); q=("?",)
        cases=[([A],None,None),([A],("=",col(0,1),("int",5)),None),([A],("<>",col(0,1),("int",5)),None),([A],("<",col(0,1),("int",5)),None),([A],(">=",col(0,1),q),[5]),([A],("null",col(0,2)),None),([A],("notnull",col(0,3)),None),
            ([A],("=",col(0,2),("str","str1")),None),([A],("=",q,col(0,2)),["str2"]),([A],("and",("=",col(0,2),q),("=",col(0,1),q)),["str1",7]),([A],("or",("=",col(0,1),q),("=",col(0,1),q)),[-3,7]),([A],("=",col(0,1),("int",99)),None),
            ([A,B],None,None),([A,B],("=",col(0,1),col(1,2)),None),([B,A],("=",col(1,1),col(0,2)),None),([A,B],("=",col(0,2),col(1,1)),None),([A,B],("and",("=",col(0,1),col(1,2)),("=",col(1,1),("str","str2"))),None),
            ([A,B],("or",("=",col(0,1),("int",7)),("=",col(1,2),("int",-3))),None),([A,B],("and",("=",col(1,2),q),("<>",col(0,1),q)),[5,7]),([A,B],("and",("<>",col(0,1),q),("=",col(1,2),q)),[7,5]),([A,B],("or",("=",col(1,2),q),("=",col(0,1),q)),[7,-3]),
            ([A,B,E],("and",("=",col(0,1),col(1,2)),("=",col(0,3),col(2,1))),None),([E,B,A],("and",("=",col(2,3),col(0,1)),("=",col(1,2),col(2,1))),None),([A,B,E],("=",col(2,1),("int",100)),None),([A,B,E],None,None),([B,E],("and",("=",col(1,1),q),("=",col(0,1),q)),[100,"str1"]),
            ([Z],None,None),([A,Z],None,None),([Z,B],("=",col(1,2),("int",5)),None),([A,A],("=",col(0,1),col(1,1)),None),([A,B],("=",col(0,1),("int",99)),None)]
        for tabs,c,par in cases:
            n=len(tabs); orders=[()]
            if n==1 and tabs[0] is A: orders+=[((0,1),),((0,3),),((0,1),(0,3)),((0,2),(0,1))]
            if tabs[0] is A and n>1 and tabs[1] is B: orders+=[((1,2),),((1,2),(0,1)),((0,1),(1,2))]
            for order in orders:
                for lo in([None] if n==1 else [None,list(range(n))]):
                    got,want,loc=s.query(tabs,c,par,order,lo); what="a query of %d tables with the condition %s ordered by %s"%(n,s.text(c),[x for _,x in order])
                    if len(got)!=1: ctx.find("query:undecided",loc,"%s: the rows found do not depend on the values alone"%what)
                    for v,rows,w in got:
                        if v!=0: ctx.find("query:failed",loc,"%s fails"%what)
                        elif sorted(rows,key=str)!=sorted(want,key=str): ctx.find("query:rows",loc,"%s finds the rows %s instead of %s"%(what,rows,want))
                        elif rows!=want: ctx.find("query:order",loc,"%s gives the rows in the order %s instead of %s"%(what,rows,want))
        got,want,loc=s.query([A],("=",col(0,1),("int",5)),None,again=True)
        for v,rows,w in got:
            if v!=0 or rows!=want: ctx.find("query:again",loc,"a query that is executed again gives %s instead of %s"%(rows,want))
        big={"types":"s","rows":[(x*37%19-5,) for x in range(40)]}
        for o in((),((0,1),)):
            got,want,loc=s.query([big],None,None,o)
            for v,rows,w in got:
                if v!=0 or rows!=want: ctx.find("query:many",loc,"of %d rows, %d are found, or in another order"%(len(want),len(rows)))
        # values that cannot be read
        for f,c,o in(((H("VW0"),2,1),("=",col(0,1),("int",5)),()),((H("VW0"),2,1),None,((0,1),)),(("execute",H("VW0")),None,())):
            got,want,loc=s.query([A],c,None,o,fail=f)
            for v,rows,w in got:
                if v==0: ctx.find("query:unread",loc,"a query whose values cannot be read succeeds")
    def text(s,c):
        if c is None: return "none"
        if c[0]=="col": return "t%d.c%d"%c[1:]
        if c[0] in("int","str"): return repr(c[1])
        if c[0]=="?": return "?"
        return "%s IS %s"%(s.text(c[1]),c[0]) if len(c)==2 else "(%s %s %s)"%(s.text(c[1]),c[0],s.text(c[2]))
    # ------------------------------------------------------------------ columns of joined tables
    def columns(s):
        ctx=s.ctx
        for tabs in([3],[1,2],[4,1,3]):
            T=[{"types":"s"*n,"rows":[(i,)*n for i in range(9)],"name":"Tab%d"%j} for j,n in enumerate(tabs)]; n=len(T)
            for lo in([list(range(n))] if n==1 else [list(range(n)),list(range(n))[::-1]]):
                O=Objects(s.P); V={}; s.tables(O,V,T,lo)
                rows=[[(3*r+2*t)%9 for t in range(n)] for r in range(4)]; z=struct_off(s.P,"_LibmsiRowEntry","values")
                O.put("WV","_LibmsiWhereView",row_count=4,reorder=(H("REO"),0),reorder_size=16)
                for r in range(4):
                    O.at("REO",8*r,(H("ENT%d"%r),0)); O.put("ENT%d"%r,"_LibmsiRowEntry",wv=(H("WV"),0))
                    for t in range(n): O.at("ENT%d"%r,z+4*t,rows[r][t])
                total=sum(tabs); place=[(t,c) for t in lo for c in range(1,tabs[t]+1)]
                for col in range(0,total+2):
                    want=place[col-1] if 1<=col<=total else None
                    for fn,ev,out in(("where_view_fetch_int","fetch",("OUT",0)),("where_view_fetch_stream","stream",("OUT",0))):
                        for r in range(5):
                            ctx.count("reads"); res,loc=s.go(fn,[(H("WV"),0),C(r),C(col),out],O,s.views(V))
                            for kd,b,v,e,w in res:
                                ctx.ok(); got=events(w,ev)
                                if want is None or r>3:
                                    if k(v)==0 or got: ctx.find("where:none",loc,"row %d, column %d of a result of 4 rows of %d columns is read"%(r,col,total))
                                elif got!=[(H("VW%d"%want[0]),rows[r][want[0]],want[1])] or k(v)!=0: ctx.find("where:read",loc,"row %d, column %d of tables of %s columns is read from %s instead of row %d, column %d of table %d"%(r,col,[tabs[t] for t in lo],got,rows[r][want[0]],want[1],want[0]))
                                elif ev=="fetch" and k(e["mem"].get(("OUT",0)) or top(32))!=V[H("VW%d"%want[0])]["rows"][rows[r][want[0]]][want[1]-1]: ctx.find("where:value",loc,"the value read is not passed on")
                    ctx.count("reads"); res,loc=s.go("where_view_get_column_info",[(H("WV"),0),C(col),("ON",0),("OT",0),("OP",0),("OTN",0)],O,s.views(V))
                    for kd,b,v,e,w in res:
                        ctx.ok(); got=events(w,"info")
                        if want is None:
                            if k(v)==0: ctx.find("where:none",loc,"column %d of %d is described"%(col,total))
                        elif got!=[(H("VW%d"%want[0]),want[1])] or k(v)!=0 or any(x not in e["mem"] for x in(("ON",0),("OT",0),("OP",0),("OTN",0))): ctx.find("where:info",loc,"column %d of tables of %s columns is described as %s"%(col,[tabs[t] for t in lo],got))
                # names of columns in conditions and orders
                names=[["Id","Name","Size","Flag"][:x] if j%2==0 else ["Other","Name"][:x] for j,x in enumerate(tabs)]
                for j in range(n): V[H("VW%d"%j)]["names"]=names[j]
                for tn in[None]+["Tab%d"%j for j in range(n)]+["None"]:
                    for cn in("Id","Name","Size","Flag","Other","Missing"):
                        ctx.count("columns looked for")
                        hit=next(((t,names[t].index(cn)+1) for t in lo if (tn is None or tn=="Tab%d"%t) and cn in names[t]),None)
                        m={}; M0=CModel(s.P)
                        for x,y in(("CN",cn),("TN",tn)):
                            if y: M0.put(m,[],(x,0),[C(c,8) for c in y.encode()]+[C(0,8)],None)
                        O.at("COL",0,("CN",0)); O.at("COL",8,("TN",0) if tn else ("null",0))
                        res,loc=s.go("parse_column",[(H("WV"),0),(H("COL"),0),("OT",0)],O,s.views(V),m=m)
                        for kd,b,v,e,w in res:
                            ctx.ok(); fl={flat(s.P,p):x for p,x in e["mem"].items() if isinstance(p,tuple) and len(p)==2 and flat(s.P,p)}
                            if hit is None:
                                if k(v)==0: ctx.find("column:missing",loc,"the column %s.%s, which does not exist, is found"%(tn,cn))
                            elif k(v)!=0 or s.num(fl.get((H("COL"),0)))!=hit[1] or fl.get((H("COL"),8))!=(H("JT%d"%hit[0]),0): ctx.find("column:found",loc,"the column %s of table %s is taken as %s of %s instead of column %d of table %d"%(cn,tn,fl.get((H("COL"),0)),fl.get((H("COL"),8)),hit[1],hit[0]))
# ---------------------------------------------------------------------- selected columns, distinct rows, fetched records
class Read(Base):
    def select(s):
        ctx=s.ctx
        b=struct_off(s.P,"_LibmsiSelectView","cols"); ctx.need(b is not None,"the structure of a selection has changed")
        for ncol,sel in((1,[1]),(3,[3,1]),(4,[2]),(4,[4,3,2,1]),(5,[0,5]),(3,[2,2,2]),(32,list(range(32,0,-1)))):
            O=Objects(s.P); V={H("VW"):{"types":"s"*ncol,"names":["c%d"%i for i in range(ncol)],"table":"T","rows":[[10*r+c for c in range(ncol)] for r in range(4)]}}
            O.put("SV","_LibmsiSelectView",table=(H("VW"),0),db=("DB",0),num_cols=len(sel),max_cols=len(sel))
            for i,c in enumerate(sel): O.at("SV",b+4*i,c)
            for col in range(0,len(sel)+2):
                want=sel[col-1] if 1<=col<=len(sel) else None
                for fn,ev in(("select_view_fetch_int","fetch"),("select_view_fetch_stream","stream")):
                    ctx.count("reads"); res,loc=s.go(fn,[(H("SV"),0),C(3),C(col),("OUT",0)],O,s.views(V))
                    for kd,bb,v,e,w in res:
                        ctx.ok(); got=events(w,ev)
                        if want is None:
                            if k(v)==0 or got: ctx.find("select:none",loc,"column %d of %d selected ones is read"%(col,len(sel)))
                        elif want==0:
                            x=e["mem"].get(("OUT",0))
                            if k(v)!=0 or got or (x!=("null",0) and s.num(x)!=0): ctx.find("select:empty",loc,"a column without a name is not empty")
                        elif got!=[(H("VW"),3,want)] or k(v)!=0: ctx.find("select:read",loc,"column %d of the selection %s is read from %s"%(col,sel,got))
                        elif ev=="fetch" and k(e["mem"].get(("OUT",0)) or top(32))!=30+want-1: ctx.find("select:value",loc,"the value read is not passed on")
                ctx.count("reads"); res,loc=s.go("select_view_get_column_info",[(H("SV"),0),C(col),("ON",0),("OT",0),("OP",0),("OTN",0)],O,s.views(V))
                for kd,bb,v,e,w in res:
                    ctx.ok(); got=events(w,"info")
                    if want is None:
                        if k(v)==0: ctx.find("select:none",loc,"column %d of %d selected ones is described"%(col,len(sel)))
                    elif want and (got!=[(H("VW"),want)] or k(v)!=0 or any(x not in e["mem"] for x in(("ON",0),("OT",0),("OP",0),("OTN",0)))): ctx.find("select:info",loc,"column %d of the selection %s is described as %s"%(col,sel,got))
            for rows,cols in((("OR",0),("OC",0)),(("null",0),("OC",0)),(("OR",0),("null",0))):
                res,loc=s.go("select_view_get_dimensions",[(H("SV"),0),rows,cols],O,s.views(V))
                for kd,bb,v,e,w in res:
                    ctx.ok()
                    if k(v)!=0 or rows[0]!="null" and k(e["mem"].get(rows) or top(32))!=4 or cols[0]!="null" and k(e["mem"].get(cols) or top(32))!=len(sel): ctx.find("select:size",loc,"the size of a selection of %d columns is wrong"%len(sel))
    def find(s):
        """names of columns"""
        ctx=s.ctx
        V={H("VW"):{"types":"sss","names":["Id","Name","Id"],"table":"T","rows":[]}}
        cols=[("Id","A"),("Name","A"),("Id","B"),("Size","B")]
        for tn in(None,"A","B","C"):
            for cn in("Id","Name","Size","None"):
                ctx.count("columns looked for"); want=next((i+1 for i,(c,t) in enumerate(cols) if c==cn and tn in(None,t)),None)
                def info(I,a,m,w):
                    i=k(a[1])
                    if i is None or not 1<=i<=4: return C(6)
                    if a[2]!=("null",0): m[a[2]]=s.M.place(m,cols[i-1][0],("txt",cols[i-1][0]))
                    if a[5]!=("null",0): m[a[5]]=s.M.place(m,cols[i-1][1],("txt",cols[i-1][1]))
                    return C(0)
                def dims(I,a,m,w):
                    if a[2]!=("null",0): m[a[2]]=C(4)
                    return C(0)
                m={}; M0=CModel(s.P)
                for x,y in(("CN",cn),("TN",tn)):
                    if y: M0.put(m,[],(x,0),[C(c,8) for c in y.encode()]+[C(0,8)],None)
                res,loc=s.go("_libmsi_view_find_column",[(H("VW"),0),("CN",0),("TN",0) if tn else ("null",0),("OUT",0)],None,dict(s.views(V),**{"_LibmsiViewOps->get_column_info":info,"_LibmsiViewOps->get_dimensions":dims}),m=m)
                for kd,b,v,e,w in res:
                    ctx.ok(); x=k(e["mem"].get(("OUT",0)) or top(32))
                    if want is None:
                        if k(v)==0: ctx.find("find:missing",loc,"the column %s of table %s, which does not exist, is found"%(cn,tn))
                    elif k(v)!=0 or x!=want: ctx.find("find:found",loc,"the column %s of table %s is taken as column %s instead of %d"%(cn,tn,x,want))
    def create(s):
        """a selection of named columns"""
        ctx=s.ctx; b=struct_off(s.P,"_LibmsiSelectView","cols"); names=["Id","Name","Size"]
        V={H("VW"):{"types":"sss","names":names,"table":"T","rows":[]}}
        for sel in(["Id"],["Size","Id"],["Name","","Size"],["Id","Nope"]):
            O=Objects(s.P); m={}; M0=CModel(s.P); s.ctx.count("columns looked for")
            O.put("VW","_LibmsiView",ops=("OPS",0))
            ops=[x[0] for x in s.P.structs["_LibmsiViewOps"]]
            for i,x in enumerate(ops): O.o.setdefault("OPS",{})[8*i]=("slot"+x,0)
            for i,x in enumerate(sel):
                M0.put(m,[],("NM%d"%i,0),[C(c,8) for c in x.encode()]+[C(0,8)],None)
                O.put("CI%d"%i,"_column_info",column=("NM%d"%i,0),table=("null",0),next=(H("CI%d"%(i+1)),0) if i+1<len(sel) else ("null",0))
            res,loc=s.go("select_view_create",[("DB",0),("OUT",0),(H("VW"),0),(H("CI0"),0)],O,s.views(V),m=m)
            for kd,bb,v,e,w in res:
                ctx.ok(); mm=e["mem"]; bad=any(x and x not in names for x in sel); sv=mm.get(("OUT",0))
                if bad:
                    if k(v)==0: ctx.find("selection:missing",loc,"a column that does not exist is selected")
                    continue
                fl={flat(s.P,p):x for p,x in mm.items() if isinstance(p,tuple) and len(p)==2 and flat(s.P,p)}
                if k(v)!=0 or not isinstance(sv,tuple): ctx.find("selection:failed",loc,"selecting %s fails"%sel); continue
                o=flat(s.P,sv); got=[k(fl.get((o[0],o[1]+b+4*i)) or top(32)) for i in range(len(sel))]; n=k(fl.get((o[0],o[1]+struct_off(s.P,"_LibmsiSelectView","num_cols"))) or top(32))
                if n!=len(sel) or got!=[names.index(x)+1 if x else 0 for x in sel]: ctx.find("selection:columns",loc,"the selection of %s has the columns %s"%(sel,got))
    def distinct(s):
        ctx=s.ctx
        for rows in([],[[1]],[[1],[1]],[[1,2],[1,3],[1,2],[2,2]],[[1,1],[2,1],[1,1],[3,1],[2,1]],[[4,5,6],[4,5,7],[4,5,6],[5,5,6],[4,6,6],[4,5,7]]):
            n=len(rows[0]) if rows else 2
            O=Objects(s.P); V={H("VW"):{"types":"s"*n,"names":["c"]*n,"table":"T","rows":rows}}
            O.put("DV","_LibmsiDistinctView",table=(H("VW"),0),db=("DB",0),row_count=0,translation=0); ctx.count("queries")
            want=[i for i,x in enumerate(rows) if x not in rows[:i]]
            res,loc=s.go("distinct_view_execute",[(H("DV"),0),("null",0)],O,s.views(V))
            for kd,b,v,e,w in res:
                ctx.ok(); mm=e["mem"]
                fl={flat(s.P,p):x for p,x in mm.items() if isinstance(p,tuple) and len(p)==2 and flat(s.P,p)}
                c=k(fl.get((H("DV"),struct_off(s.P,"_LibmsiDistinctView","row_count"))) or top(32)); t=fl.get((H("DV"),struct_off(s.P,"_LibmsiDistinctView","translation")))
                got=[k(fl.get((t[0],t[1]+4*i)) or top(32)) for i in range(c or 0)] if isinstance(t,tuple) else None
                if k(v)!=0: ctx.find("distinct:failed",loc,"finding the distinct rows of %s fails"%rows); continue
                if c is None or got!=want: ctx.find("distinct:rows",loc,"the distinct ones of the rows %s are %s instead of %s"%(rows,got,want)); continue
                for r in range(len(want)+1):
                    for fn,ev in(("distinct_view_fetch_int","fetch"),("distinct_view_fetch_stream","stream")):
                        ctx.count("reads"); res2,l2=s.go(fn,[(H("DV"),0),C(r),C(n),("OUT",0)],O,s.views(V),mem=mm)
                        for _,_,v2,e2,w2 in res2:
                            ctx.ok(); g=[x for x in w2 if x[0]==("event",ev)]; g=[x[1] for x in g]
                            if r==len(want):
                                if k(v2)==0: ctx.find("distinct:none",l2,"a row after the distinct ones is read")
                            elif g!=[(H("VW"),want[r],n)] or k(v2)!=0: ctx.find("distinct:read",l2,"distinct row %d is read from %s instead of row %d"%(r,g,want[r]))
                res2,l2=s.go("distinct_view_get_dimensions",[(H("DV"),0),("OR",0),("OC",0)],O,s.views(V),mem=mm)
                for _,_,v2,e2,w2 in res2:
                    ctx.ok()
                    if k(v2)!=0 or k(e2["mem"].get(("OR",0)) or top(32))!=len(want) or k(e2["mem"].get(("OC",0)) or top(32))!=n: ctx.find("distinct:size",l2,"the number of distinct rows or of columns is wrong")
    def fetch(s):
        ctx=s.ctx
        for types in("s","l","t","b","stlb","bbss","ltlt","k"+"s"*31):
            n=len(types)
            rows=[[{"s":short,"l":long_}.get(t,lambda x:x)(x) for t,x in zip(types,[{"s":[5,-32767,32767,None][(r+i)%4],"l":[0x7fffffff,-0x7fffffff,-1,None][(r+i)%4],"t":[3,9,None,4][(r+i)%4] or 0,"k":r+1,"b":1}[t] for i,t in enumerate(types)])] for r in range(3)]
            V={H("VW"):{"types":types,"names":["c"]*n,"table":"T","rows":rows}}
            O=Objects(s.P); O.put("VW","_LibmsiView",ops=("OPS",0)); ops=[x[0] for x in s.P.structs["_LibmsiViewOps"]]
            for i,x in enumerate(ops): O.o.setdefault("OPS",{})[8*i]=("slot"+x,0)
            for r in range(5):
                for fail in(None,(H("VW"),r,n)):
                    if fail and n>4: continue
                    ctx.count("rows fetched")
                    res,loc=s.go("msi_view_get_row",[("DB",0),(H("VW"),0),C(r),("OUT",0)],O,s.views(V,fail))
                    for kd,b,v,e,w in res:
                        ctx.ok(); mm=e["mem"]; what="row %d of a result of 3 rows with the columns %s"%(r,types)
                        if r>=3:
                            if k(v) in(0,None) or [x for x in events(w,"record")]: ctx.find("fetch:end",loc,"%s is fetched"%what)
                            continue
                        if fail and types[-1]!="b":
                            if k(v)==0: ctx.find("fetch:failed",loc,"%s is fetched although a value cannot be read"%what)
                            continue
                        rec=mm.get(("OUT",0)); want=[]
                        for i,(t,x) in enumerate(zip(types,rows[r])):
                            if t=="b":
                                if not fail: want.append((i+1,("stream",(("heap","STM",H("VW"),r,i+1),0))))
                                elif i+1<n: want.append((i+1,("stream",(("heap","STM",H("VW"),r,i+1),0))))
                            elif x: want.append((i+1,("text","str%d"%x) if t in"tk" else ("int",(x-(0x8000 if t=="s" else 0x80000000))&0xffffffff)))
                        if k(v)!=0 or not isinstance(rec,tuple): ctx.find("fetch:none",loc,"%s cannot be fetched"%what); continue
                        got=s.RM.all(mm,rec); cnt=mm.get(("count",rec[0]))
                        if cnt!=n or list(got)!=want: ctx.find("fetch:values",loc,"%s is fetched as %s (%s fields) instead of %s"%(what,got,cnt,want))
        # one row after the other
        Q="_LibmsiQuery"; ctx.need(s.P.structs.get(Q),"the structure of a query has changed")
        for row in(0,1,5):
            for res in(0,12,None):
                O=Objects(s.P); O.put("Q",Q,view=(H("VW"),0),database=("DB",0),row=row); ctx.count("rows fetched")
                rv=res if res is not None else 259
                def get(I,a,m,w): w.append((("event","get"),(a[1],k(a[2]),a[3]),I)); return C(rv)
                r2,loc=s.go("_libmsi_query_fetch",[(H("Q"),0),("OUT",0)],O,{"msi_view_get_row":get})
                for kd,b,v,e,w in r2:
                    ctx.ok(); fl={flat(s.P,p):x for p,x in e["mem"].items() if isinstance(p,tuple) and len(p)==2 and flat(s.P,p)}
                    nx=k(fl.get((H("Q"),struct_off(s.P,Q,"row")),C(row)))
                    if events(w,"get")!=[((H("VW"),0),row,("OUT",0))] or k(v)!=rv: ctx.find("next:row",loc,"the next row is not fetched")
                    if nx!=(row+1 if rv==0 else row): ctx.find("next:step",loc,"after row %d, row %s follows"%(row,nx))
            r2,loc=s.go("_libmsi_query_execute",[(H("Q"),0),("REC",0)],O,s.views({H("VW"):{"types":"s","rows":[]}}))
            for kd,b,v,e,w in r2:
                fl={flat(s.P,p):x for p,x in e["mem"].items() if isinstance(p,tuple) and len(p)==2 and flat(s.P,p)}
                if not events(w,"execute"): continue
                ctx.ok(); nx=k(fl.get((H("Q"),struct_off(s.P,Q,"row")),C(row)))
                if nx!=0: ctx.find("next:first",loc,"a query that is executed starts with row %s"%nx)
                if events(w,"execute")!=[(H("VW"),("REC",0))]: ctx.find("next:parameters",loc,"the parameters are not passed on")
def run(ctx):
    P=ctx.prog("libmsi"); W=Where(ctx,P); W.run(); W.columns()
    R=Read(ctx,P); R.select(); R.find(); R.create(); R.distinct(); R.fetch()
    ctx.rule("A query gives each combination of rows that meets its condition once, in the order asked for; each column of its result is read from and described by the column of the table it names; a fetched record has the values of the row in its columns.")
