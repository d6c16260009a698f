"""wixl's table definitions: the constant CREATE and INSERT statements, the records filled for them, and the list of
tables that is written to the package."""
from util import *
import re
MINIMUM={"tables":36,"records":30,"setters":150}
SET={"libmsi_record_set_string":"CHAR","libmsi_record_set_int":"INT","libmsi_record_load_stream":"OBJECT","libmsi_record_set_stream":"OBJECT"}
BUILTIN={"_Streams":[("Name","CHAR",True),("Data","OBJECT",False)]}
def strvalues(P,F,o):
    """constant strings (or printf formats) a value can be a copy of; None in the set when something else"""
    out=set()
    for x in origin(P,F,o):
        s=P.cstr(x)
        if s is not None: out.add((s,False)); continue
        if x[0]=="n" or x==("c",0): continue
        if x[0]=="i":
            I=F.insts[x[1]]
            if I.op=="call":
                n=P.callname(F,I)
                if n in("g_strdup","strdup"): out|=strvalues(P,F,I.a[0]); continue
                if n=="g_strdup_printf":
                    s=P.cstr(I.a[0]); out.add((s,True) if s else None); continue
                if n in("g_malloc","g_strndup"):
                    m=[J for J in P.calls(F) if P.callname(F,J).startswith("llvm.memcpy") and skipcast(F,J.a[0])==x]
                    if m:
                        for J in m: out|=strvalues(P,F,J.a[1])
                        continue
        out.add(None)
    return out
def ident(s): return re.sub(r"[^a-z0-9]","",s.lower())
TYPES={"CHAR":"CHAR","CHARACTER":"CHAR","LONGCHAR":"CHAR","INT":"INT","INTEGER":"INT","SHORT":"INT","LONG":"INT","OBJECT":"OBJECT"}
def parse_create(s):
    m=re.match(r"\s*CREATE TABLE `([^`]+)` \((.*) PRIMARY KEY (`[^`]+`(?:, ?`[^`]+`)*)\)\s*$",s,re.S)
    if not m: return None
    cols=[]
    for part in re.split(r", ?(?=`)",m[2]):
        c=re.match(r"`([^`]+)` (\w+)(?:\((\d+)\))?((?: NOT NULL| LOCALIZABLE| TEMPORARY)*)$",part.strip())
        if not c or c[2] not in TYPES: return None
        cols.append((c[1],TYPES[c[2]],"NOT NULL" in c[4]))
    return m[1],cols,re.findall(r"`([^`]+)`",m[3])
def parse_insert(s):
    # the SQL scanner also takes a bare name, and ignores a backquote directly after one
    m=re.match(r"\s*INSERT INTO `([^`]+)` \(((?:`[^`]+`|\w+`?)(?:, ?(?:`[^`]+`|\w+`?))*)\) VALUES \((\?(?:, ?\?)*)\)( TEMPORARY)?\s*$",s)
    if not m: return None
    return m[1],re.findall(r"`?([^`, ]+)`?",m[2]),m[3].count("?")
class Fill(Rule):
    """rs = indices set on the record so far, per record symbol"""
    def __init__(s,ctx,P,cls,ins,types,later): s.later=later;s.ctx=ctx;s.P=P;s.cls=cls;s.ins=ins;s.types=types
    def rec(s,X,st,o):
        """record the operand is: through the wrappers that add a reference"""
        for _ in range(4):
            if o[0]=="i":
                I=X.F.insts.get(o[1])
                if I is not None and I.op=="call" and X.P.callname(X.F,I).startswith(("_g_object_ref0","g_object_ref")): o=X.sym(st,I.a[0]); continue
            break
        return o
    def call(s,X,st,I,n,names,args,ret):
        rs=st.rs or frozenset()
        if n=="libmsi_record_new": st.rs=rs|{(ret,"new")}
        elif n in SET and args[1][0]=="c":
            i=args[1][1]; r=s.rec(X,st,args[0])
            if (r,"new") in rs: st.rs=rs|{(r,i)}
            if n=="libmsi_record_set_string" and 1<=i<=len(s.ins):
                c=s.ins[i-1]
                if s.types.get(c,(0,False))[1] and args[2][0]=="a":
                    f=X.fact(st,args[2])
                    if not(f[0]>0 or 0 in f[2]): s.ctx.find("%s:%s:null"%(X.F.src,c),s.P.loc(I),"the column %s may not be null but is given a value that can be"%c)
        elif n in("g_list_append","g_list_prepend") and len(args)==2:
            r=s.rec(X,st,args[1])
            if (r,"new") in rs:
                s.ctx.count("paths_adding_a_row")
                for i,c in enumerate(s.ins,1):
                    if s.types.get(c,(0,False))[1] and (r,i) not in rs and i not in s.later:
                        s.ctx.find("%s:%s:unset"%(X.F.src,c),s.P.loc(I),"a row can be added without a value for the required column %s"%c)
        return None
def run(ctx):
    P=ctx.prog("wixl")
    classes=sorted((n[:-9] for n in (F.src for F in P.fns.values()) if n.endswith("_get_type")),key=len,reverse=True)
    def cls(n):
        for c in classes:
            if n==c or n.startswith(c+"_"): return c
    info={}; bycls={}
    for F in P.fns.values():
        c=cls(F.src)
        if c and c.startswith("wixl_msi_table"): bycls.setdefault(c,[]).append(F)
        for I in P.insts(F):
            if I.op=="store":
                k=P.fieldkey(F,I.a[1])
                if k and k[0].endswith("MsiTableClass") and k[1] in("name","sql_create","sql_insert") and c:
                    if I.a[0][0]=="n": continue
                    info.setdefault(c,{}).setdefault(k[1],[]).append((F,I,strvalues(P,F,I.a[0])))
            elif I.op=="call" and P.callname(F,I)=="libmsi_query_new" and c and c!="wixl_msi_table":
                info.setdefault(c,{}).setdefault("sql_insert",[]).append((F,I,strvalues(P,F,I.a[1])))
    names={}
    for c,d in sorted(info.items()):
        cols=None; ins=None; tname=None; cname=None; fmt=False
        for F,I,vs in d.get("name",[]):
            if len(vs)==1 and None not in vs: cname=list(vs)[0][0]
            if cname is not None:
                ctx.ok(P.loc(I))
                if cname in names and names[cname]!=c: ctx.find("%s:name"%c,P.loc(I),"two table classes are named %s: only one of them is written"%cname)
                names[cname]=c
        ctx.count("tables"); ctx.fns([F.src for F in bycls.get(c,[])])
        for F,I,vs in d.get("sql_create",[]):
            if len(vs)!=1 or None in vs: continue
            s,fmt=list(vs)[0]; ctx.ok(P.loc(I))
            if fmt: s=s.replace("%s","@")
            p=parse_create(s)
            if not p: ctx.find("%s:create"%c,P.loc(I),"the statement creating the table is not well formed: %s"%s[:80]); continue
            tname,cols,pk=p; cn=[x[0] for x in cols]
            if len(set(cn))!=len(cn): ctx.find("%s:create-columns"%c,P.loc(I),"a column of %s is defined twice"%tname)
            if cname and cname!=tname and not fmt: ctx.find("%s:create-name"%c,P.loc(I),"the class for table %s creates table %s"%(cname,tname))
            for k in pk:
                if k not in cn: ctx.find("%s:create-key"%c,P.loc(I),"the key column %s of %s is not a column"%(k,tname))
            if pk!=cn[:len(pk)] : ctx.find("%s:create-key-order"%c,P.loc(I),"the key columns of %s are not its first columns"%tname)
        for F,I,vs in d.get("sql_insert",[]):
            if len(vs)!=1 or None in vs: continue
            s,f2=list(vs)[0]
            if f2: s=s.replace("%s","@")
            if not s.lstrip().startswith("INSERT"):
                if not any(F is G for G,_,_ in d.get("sql_insert",[])) : continue
                if P.callname(F,I)=="libmsi_query_new" if I.op=="call" else False: continue
            ctx.ok(P.loc(I)); p=parse_insert(s)
            if not p: ctx.find("%s:insert"%c,P.loc(I),"the statement inserting rows is not well formed: %s"%s[:120]); continue
            it,ins,nq=p
            if cols is None and it in BUILTIN: cols=BUILTIN[it]; tname=it
            if nq!=len(ins): ctx.find("%s:insert-values"%c,P.loc(I),"the insert into %s names %d columns and has %d values"%(it,len(ins),nq))
            if len(set(ins))!=len(ins): ctx.find("%s:insert-columns"%c,P.loc(I),"the insert into %s names a column twice"%it)
            if tname and it!=tname: ctx.find("%s:insert-name"%c,P.loc(I),"rows of %s are inserted into %s"%(tname,it))
            if cols:
                for k in ins:
                    if k not in [x[0] for x in cols]: ctx.find("%s:insert-column:%s"%(c,k),P.loc(I),"the insert names the column %s which the table %s does not have"%(k,it))
                for k,t,nn in cols:
                    if nn and k not in ins: ctx.find("%s:insert-required:%s"%(c,k),P.loc(I),"the insert into %s gives no value for the required column %s"%(it,k))
        if not ins or not cols: continue
        types={k:(t,nn) for k,t,nn in cols}; byid={ident(k):k for k,_,_ in cols}
        for F in bycls.get(c,[]):
            uses=[I for I in P.calls(F) if P.callname(F,I) in SET or P.callname(F,I)=="libmsi_record_new"]
            if not uses: continue
            for I in uses:
                n=P.callname(F,I)
                if n=="libmsi_record_new":
                    ctx.count("records"); ctx.ok(P.loc(I))
                    if I.a[0]!=("c",len(ins)): ctx.find("%s:record-size"%F.src,P.loc(I),"the record for %s has %s fields, the insert takes %d"%(tname,I.a[0][1],len(ins)))
                    continue
                i=I.a[1]
                if i[0]!="c": continue
                ctx.count("setters"); ctx.ok(P.loc(I))
                if not 1<=i[1]<=len(ins): ctx.find("%s:index"%F.src,P.loc(I),"field %d is set but the insert into %s takes %d values"%(i[1],tname,len(ins))); continue
                col=ins[i[1]-1]
                if col not in types: continue
                # a text column given a stream is an unreachable path of Control (no source file is ever attached to it)
                if types[col][0]!=SET[n] and not(types[col][0]=="CHAR" and SET[n]=="OBJECT"): ctx.find("%s:kind:%s"%(F.src,col),P.loc(I),"the column %s of %s is %s but is given a %s"%(col,tname,types[col][0],{"CHAR":"string","INT":"number","OBJECT":"stream"}[SET[n]]))
                for o in origin(P,F,I.a[2]):
                    if o[0]=="a" and ident(F.pn[o[1]]) in byid and byid[ident(F.pn[o[1]])]!=col and byid[ident(F.pn[o[1]])] in ins:
                        ctx.find("%s:swapped:%s"%(F.src,col),P.loc(I),"the value for column %s of %s is stored in column %s"%(byid[ident(F.pn[o[1]])],tname,col))
            # a method that hands the record out leaves fields for the setters of the class
            later={I.a[1][1] for G in bycls[c] if G is not F for I in P.calls(G) if P.callname(G,I) in SET and I.a[0][0]=="a" and I.a[1][0]=="c"} if F.ret=="ptr" else set()
            Explorer(P,F,Fill(ctx,P,c,ins,types,later)).run()
    tables_listed(ctx,P)
    ctx.rule("For every table class: the CREATE statement parses, key columns are its leading columns, the INSERT names existing columns of the same table with as many values and all required columns; the records have that many fields, each field is set with the kind of its column, with the value of the parameter of that name, and required fields are set to a non-null value on every path that adds the row; every table object of the database is put on the list that is written.")
def tables_listed(ctx,P):
    F=ctx.need(P.fn("wixl_msi_database_construct"),"constructor of the package not found")
    made={}; listed=set()
    for I in P.insts(F):
        if I.op=="store":
            k=P.fieldkey(F,I.a[1]); os=origin(P,F,I.a[0])
            for o in os:
                if o[0]!="i": continue
                D=F.insts[o[1]]
                if D.op!="call": continue
                n=P.callname(F,D)
                if n.startswith("wixl_msi_table_") and n.endswith("_new") and k and k[0].endswith("MsiDatabase"): made[k[1]]=I
                if n.startswith("_g_object_ref0") and not k:
                    lf=loadfield(P,F,D.a[0])
                    if lf: listed.add(lf[1])
    ctx.need(len(made)>=30,"the tables of the package not found")
    for f,I in made.items():
        ctx.ok(P.loc(I)); ctx.count("listed_tables")
        if f not in listed: ctx.find("tables:%s"%f,P.loc(I),"%s is created but not on the list of tables written to the package"%f)
    ctx.fns([F.src])
