"""How SQL text becomes a statement: the tokens of the lexer, the keyword table, the precedence of the operators, and for
each production of the grammar the value and the view or expression its action builds."""
from util import *
from sccp import *
from grammar import grammar,Actions
MINIMUM={"obligations":150,"productions":60,"tokens":25}
S="$"
VALID,LOCAL,STRING,NULLABLE,KEY,TEMP=0x100,0x200,0x800,0x1000,0x2000,0x4000
def C(fn,*a): return ("call",fn,a)
def V(x): return ("val",x)
ANY="*"
OUT="out"     # the address of a local, whose content becomes the value
DB="*"
E={
 ("oneinsert","INSERT INTO table LP collist RP VALUES LP constlist RP"):[C("insert_view_create",DB,OUT,(S,3),(S,5),(S,9),0),V(OUT)],
 ("oneinsert","INSERT INTO table LP collist RP VALUES LP constlist RP TEMPORARY"):[C("insert_view_create",DB,OUT,(S,3),(S,5),(S,9),1),V(OUT)],
 ("onecreate","CREATE TABLE table LP table_def RP"):[C("create_view_create",DB,OUT,(S,3),(S,5),0),V(OUT)],
 ("onecreate","CREATE TABLE table LP table_def RP HOLD"):[C("create_view_create",DB,OUT,(S,3),(S,5),1),V(OUT)],
 ("oneupdate","UPDATE table SET update_assign_list WHERE expr"):[C("update_view_create",DB,OUT,(S,2),(S,4),(S,6)),V(OUT)],
 ("oneupdate","UPDATE table SET update_assign_list"):[C("update_view_create",DB,OUT,(S,2),(S,4),0),V(OUT)],
 ("onedelete","DELETE from"):[C("delete_view_create",DB,OUT,(S,2)),V(OUT)],
 ("onealter","ALTER TABLE table alterop"):[C("alter_view_create",DB,OUT,(S,3),0,(S,4)),V(OUT)],
 ("onealter","ALTER TABLE table ADD column_and_type"):[C("alter_view_create",DB,OUT,(S,3),(S,5),0),V(OUT)],
 ("onealter","ALTER TABLE table ADD column_and_type HOLD"):[C("alter_view_create",DB,OUT,(S,3),(S,5),1),V(OUT)],
 ("alterop","HOLD"):[V(1)],
 ("alterop","FREE"):[V(-1)],
 ("onedrop","DROP TABLE table"):[C("drop_view_create",DB,OUT,(S,3)),V(OUT)],
 ("table_def","column_def PRIMARY KEY collist"):[C("sql_mark_primary_keys",("addr",1),(S,4)),V((S,1)),("fail",0)],
 ("column_def","column_def COMMA column_and_type"):[("st","next",ANY,(S,3)),V((S,1))],
 ("column_def","column_and_type"):[V((S,1))],
 ("column_and_type","column column_type"):[V((S,1)),("st","type",(S,1),("or",VALID,(S,2))),("st","temporary",(S,1),("bit",TEMP,(S,2)))],
 ("column_type","data_type_l"):[V((S,1))],
 ("column_type","data_type_l LOCALIZABLE"):[V(("or",LOCAL,(S,1)))],
 ("column_type","data_type_l TEMPORARY"):[V(("or",TEMP,(S,1)))],
 ("data_type_l","data_type"):[V(("or",NULLABLE,(S,1)))],
 ("data_type_l","data_type NOT NULL"):[V((S,1))],
 ("data_type","CHAR"):[V(STRING|1)],
 ("data_type","CHAR LP data_count RP"):[V(("or",STRING|0x400,(S,3)))],
 ("data_type","LONGCHAR"):[V(STRING|0x400)],
 ("data_type","SHORT"):[V(2|0x400)],
 ("data_type","INT"):[V(2|0x400)],
 ("data_type","LONG"):[V(4)],
 ("data_type","OBJECT"):[V(STRING|VALID)],
 ("data_count","number"):[V((S,1))],
 ("oneselect","SELECT selectfrom"):[V((S,2))],
 ("oneselect","SELECT DISTINCT selectfrom"):[C("distinct_view_create",DB,OUT,(S,3)),V(OUT)],
 ("selectfrom","selcollist from"):[C("select_view_create",DB,OUT,(S,2),(S,1)),V(OUT),V((S,2))],
 ("selcollist","selcolumn COMMA selcollist"):[("st","next",(S,1),(S,3))],
 ("selcollist","STAR"):[V(0)],
 ("collist","column COMMA collist"):[("st","next",(S,1),(S,3))],
 ("collist","STAR"):[V(0)],
 ("from","FROM table"):[C("table_view_create",DB,(S,2),OUT),V(OUT)],
 ("from","unorderdfrom ORDER BY collist"):[C("_LibmsiViewOps->sort",(S,1),(S,4)),V((S,1))],
 ("unorderdfrom","FROM tablelist"):[C("where_view_create",DB,OUT,(S,2),0),V(OUT)],
 ("unorderdfrom","FROM tablelist WHERE expr"):[C("where_view_create",DB,OUT,(S,2),(S,4)),V(OUT)],
 ("tablelist","table"):[V((S,1))],
 ("tablelist","table COMMA tablelist"):[C("parser_add_table",ANY,(S,3),(S,1)),V("parser_add_table")],
 ("expr","LP expr RP"):[V((S,2))],
 ("constlist","const_val"):[C("parser_alloc_column",ANY,0,0),V("parser_alloc_column"),("st","val","parser_alloc_column",(S,1))],
 ("constlist","const_val COMMA constlist"):[C("parser_alloc_column",ANY,0,0),V("parser_alloc_column"),("st","val","parser_alloc_column",(S,1)),("st","next","parser_alloc_column",(S,3))],
 ("update_assign_list","column_assignment COMMA update_assign_list"):[V((S,1)),("st","next",(S,1),(S,3))],
 ("column_assignment","column EQ const_val"):[V((S,1)),("st","val",(S,1),(S,3))],
 ("const_val","number"):[C("build_expr_ival",ANY,(S,1)),V("build_expr_ival")],
 ("const_val","MINUS number"):[C("build_expr_ival",ANY,("neg",(S,2))),V("build_expr_ival")],
 ("const_val","STRING"):[C("build_expr_sval",ANY,("addr",1)),V("build_expr_sval")],
 ("const_val","WILDCARD"):[C("build_expr_wildcard",ANY),V("build_expr_wildcard")],
 ("column_val","column"):[C("build_expr_column",ANY,(S,1)),V("build_expr_column")],
 ("column","table DOT id"):[C("parser_alloc_column",ANY,(S,1),(S,3)),V("parser_alloc_column")],
 ("column","id"):[C("parser_alloc_column",ANY,0,(S,1)),V("parser_alloc_column")],
 ("selcolumn","table DOT id"):[C("parser_alloc_column",ANY,(S,1),(S,3)),V("parser_alloc_column")],
 ("selcolumn","id"):[C("parser_alloc_column",ANY,0,(S,1)),V("parser_alloc_column")],
 ("selcolumn","string"):[C("parser_alloc_column",ANY,0,(S,1)),V("parser_alloc_column")],
 ("table","id"):[V((S,1))],
 ("id","ID"):[C("sql_unescape_string",ANY,("addr",1),("addr",0))],
 ("string","STRING"):[C("sql_unescape_string",ANY,("addr",1),("addr",0))],
 ("number","INTEGER"):[],
}
OPS={"AND":"expr AND expr","OR":"expr OR expr","EQ":"column_val EQ val","GT":"column_val GT val","LT":"column_val LT val","LE":"column_val LE val","GE":"column_val GE val","NE":"column_val NE val"}
UN={"ISNULL":"column_val IS NULL","NOTNULL":"column_val IS NOT NULL"}
TOK={"(":"LP",")":"RP","*":"STAR","=":"EQ","<=":"LE","<>":"NE","<":"LT","< 1":"LT",">=":"GE",">":"GT","> 1":"GT","!=":"NE","?":"WILDCARD",",":"COMMA","-1":"MINUS","- 1":"MINUS"," x":"SPACE","\tx":"SPACE","\nx":"SPACE","`a`":"ID","'a'":"STRING","5":"INTEGER","0":"INTEGER","9":"INTEGER",".a":"DOT",";":"ILLEGAL"}
LEN={"(":1,")":1,"*":1,"=":1,"<=":2,"<>":2,"<":1,"< 1":1,">=":2,">":1,"> 1":1,"!=":2,"?":1,",":1,"-1":1,".a":1}
KW="ADD ALTER AND BY CHAR CHARACTER:CHAR CREATE DELETE DISTINCT DROP FREE FROM HOLD INSERT INT INTEGER:INT INTO IS KEY LOCALIZABLE LONG LONGCHAR NOT NULL OBJECT OR ORDER PRIMARY SELECT SET SHORT TABLE TEMPORARY UPDATE VALUES WHERE"
def opcodes(P,A,rules):
    """operator name -> constant the action passes, for the condition operators"""
    r={}
    for n,(l,rh) in rules.items():
        k=" ".join(x.replace("TK_","") for x in rh)
        for d,fn in((OPS,"build_expr_complex"),(UN,"build_expr_unary")):
            for name,prod in d.items():
                if l=="expr" and k==prod:
                    for I in A.insts(n):
                        if I.op=="call" and A.P.callname(A.F,I)==fn and I.a[2 if True else 0][0]=="c": r[name]=I.a[2][1]
    return r
def show(x):
    return "$%d"%x[1] if isinstance(x,tuple) and x[0]=="$" else str(x)
def run(ctx):
    P=ctx.prog("libmsi"); F=ctx.need(P.fn("sql_parse"),"the parser is not there")
    rules,prec,toks=grammar(); A=Actions(P,F,rules); ctx.need(A.ok,"the actions of the parser not found")
    have={}
    for n,(l,rh) in rules.items(): have[(l," ".join(x.replace("TK_","") for x in rh))]=n
    exp=dict(E)
    for name,prod in OPS.items(): exp[("expr",prod)]=[("op",name,C("build_expr_complex",ANY,(S,1),ANY,(S,3))),V("build_expr_complex")]
    for name,prod in UN.items(): exp[("expr",prod)]=[("op",name,C("build_expr_unary",ANY,(S,1),ANY)),V("build_expr_unary")]
    for k in (("query","onequery"),("expr","LP expr RP"),("val","column_val"),("val","const_val"),("collist","column"),("selcollist","selcolumn"),("update_assign_list","column_assignment"),("from","unorderdfrom")): exp.setdefault(k,None)
    for k,eff in exp.items():
        ctx.count("productions"); key="%s: %s"%k
        n=have.get(k)
        if n is None: ctx.find("production:"+key,"libmsi/sql-parser.y","the production %s is no longer part of the grammar"%key); continue
        if eff is None: ctx.ok(); continue
        production(ctx,P,F,A,n,key,eff)
    # different operators have different codes
    oc=opcodes(P,A,rules); ctx.ok()
    if len(set(oc.values()))!=len(oc): ctx.find("opcodes","libmsi/sql-parser.y","two operators of a condition are given the same code")
    ctx.need(len(oc)>=10,"operators of conditions not found")
    # OR binds weaker than AND, AND weaker than NOT and the comparisons
    ctx.ok("operator precedence")
    lv=lambda t: prec.get("TK_"+t,(0,""))[0]
    if not(0<lv("OR")<lv("AND")<min(lv(t) for t in("EQ","NE","LT","GT","LE","GE"))) or prec.get("TK_AND",("",""))[1]!="left": ctx.find("precedence","libmsi/sql-parser.y","OR does not bind weaker than AND and the comparisons")
    # a length that does not fit the size bits of a column type is refused
    n=have.get(("data_count","number"))
    if n:
        ctx.ok("length of CHAR"); hi=False
        for I in A.insts(n):
            if I.op=="icmp" and I.a[1][0]=="c" and A.val(n,I.a[0])==(S,1) and (I.pred[1:],I.a[1][1]) in(("gt",255),("le",255),("lt",256),("ge",256)): hi=True
        if not hi: ctx.find("data_count","libmsi/sql-parser.y","a CHAR length above 255 is not refused: it runs into the other bits of the column type")
    nodes(ctx,P)
    tokens(ctx,P,toks); keywords(ctx,P,toks)
    lexer(ctx,P,toks)
    ctx.fns(["sql_parse","sql_get_token","sqlite_find_keyword","sql_compare_keyword","sql_lex"]+list(NODE))
    ctx.rule("For each production of the grammar reported by bison, the action's calls, their arguments by position, the fields it stores and its value are those of the statement; conditional constant propagation over the lexer gives the token and length of each operator text; the keyword table is sorted, complete and maps each word to its token; expression nodes carry their operands.")
def same(x,e):
    if e==ANY: return True
    if e==OUT: return x is not None and x[0]=="out"
    if isinstance(e,int): return x is not None and x[0]=="c" and (x[1]&0xffff)==(e&0xffff) or e==1 and x==("c",-1)
    if isinstance(e,str): return x==("call",e)
    if e[0]=="bit":
        while x and x[0]=="bool": x=x[1]
        return x==("and",e[1],e[2])
    if e[0]=="addr" and e[1]==1: return x==e or x==("addr",1)
    return x==e
def production(ctx,P,F,A,n,key,eff):
    vals=[e[1] for e in eff if e[0]=="val"]; fails=[e[1] for e in eff if e[0]=="fail"]
    got=[]; outs=set()
    for I in A.insts(n):
        if I.op=="store" and A.yyval(I.a[1]): got.append((I,A.val(n,I.a[0])))
    where=P.loc(F.blocks[A.case[n]].insts[0]) if n in A.case else "libmsi/sql-parser.y"
    for e in eff:
        op=None
        if e[0]=="op": op=e[1]; e=e[2]
        if e[0]=="call":
            ctx.ok("%s: %s"%(key,e[1])); cs=[I for I in A.insts(n) if I.op=="call" and P.callname(F,I)==e[1]]
            if not cs: ctx.find("%s:%s"%(key,e[1]),where,"the action of '%s' no longer calls %s"%(key,e[1])); continue
            for I in cs:
                for j,x in enumerate(e[2]):
                    if j>=len(I.a): continue
                    v=A.val(n,I.a[j])
                    if not same(v,x): ctx.find("%s:%s:%d"%(key,e[1],j),P.loc(I),"in '%s' argument %d of %s is %s, not %s"%(key,j+1,e[1],show(v),show(x)))
                    elif x==OUT: outs.add(v[1])
        if e[0]=="st":
            ctx.ok("%s: %s"%(key,e[1])); hit=False
            for I in A.insts(n):
                if I.op!="store": continue
                fk=P.fieldkey(F,I.a[1])
                if not fk or fk[1]!=e[1]: continue
                G=F.insts[I.a[1][1]] if I.a[1][0]=="i" else None
                b=A.val(n,G.a[0]) if G is not None and G.op=="getelementptr" else None
                v=A.val(n,I.a[0])
                if same(b,e[2]) and same(v,e[3]): hit=True
                else: ctx.find("%s:%s"%(key,e[1]),P.loc(I),"in '%s' the member %s of %s becomes %s"%(key,e[1],show(b),show(v)))
            if not hit: ctx.find("%s:%s-missing"%(key,e[1]),where,"the action of '%s' does not set the member %s"%(key,e[1]))
    if vals:
        ctx.ok("%s: value"%key)
        real=[(I,v) for I,v in got if not(v==("c",0) and (0 in fails))]
        ok=[e for e in vals if any(same(v,e) for _,v in real)]
        # the value of $1 is what an action without a store leaves
        for e in vals:
            if e not in ok and not(e==(S,1) and not real): ctx.find("%s:value"%key,where,"the value of '%s' is not %s"%(key,show(e)))
        for I,v in real:
            if not any(same(v,e) for e in vals): ctx.find("%s:value"%key,P.loc(I),"the value of '%s' becomes %s"%(key,show(v)))
            elif v and v[0]=="out" and outs and v[1] not in outs: ctx.find("%s:value"%key,P.loc(I),"the value of '%s' is not the view it created"%key)
# expression nodes: fields and the parameter each takes
NODE={"build_expr_complex":{"left":("a",1),"op":("a",2),"right":("a",3)},"build_expr_unary":{"left":("a",1),"op":("a",2)},"build_expr_ival":{"u":("a",1)},
 "parser_alloc_column":{"table":("a",1),"column":("a",2),"next":("c",0),"val":("c",0),"type":("c",0)},"build_expr_column":{"column":("ld","column",("a",1)),"table":("ld","table",("a",1))},"build_expr_wildcard":{},"build_expr_sval":{}}
def nodes(ctx,P):
    """what the functions that make expressions and columns put in them, interpreted with what they call; for all arguments"""
    from cmodel import CModel
    from bits import Region,V as Bits,C as K
    from recmodel import struct_off
    sub=lambda S,x,base=0: base+struct_off(P,S,x)
    u=sub("expr","u"); want_at={}
    for fn,w in NODE.items():
        want_at[fn]={f: sub("_column_info",f) if fn=="parser_alloc_column" else u+{"column":0,"table":8}[f] if fn=="build_expr_column" else u+struct_off(P,"complex_expr",f) if f!="u" else u for f in w}
    types={}
    for fn,want in NODE.items():
        F=ctx.need(P.fn(fn),"%s not found"%fn); loc=P.loc(F.blocks[0].insts[0]); M=CModel(P)
        M.calls["parser_alloc"]=lambda I,a,m,w: M.new(I,m,w,None)
        def unescape(ok):
            def h(R,I,a,m,w):
                m=dict(m); w=list(w)
                if ok: m[a[2]]=("TXT",0)
                return [(K(0 if ok else 1),m,w)]
            h.fork=True; return h
        args=[("info",0)]
        for i,ty in enumerate(F.params[1:],1): args.append(Bits([((fn,i),j,0) for j in range(32)]) if ty=="i32" else (("arg",i),0))
        for ok in((1,0) if fn=="build_expr_sval" else (1,)):
            M.calls["sql_unescape_string"]=unescape(ok); m={}
            for f in("column","table"): m[(("arg",1),sub("_column_info",f))]=(("val",f),0)
            R=Region(P,F,m,M.calls,4000,M.loads,{n for n,G in P.fns.items() if G.file==F.file}-set(M.calls),None,True)
            out=R.run(0,{("a",i):x for i,x in enumerate(args)}); ctx.stuck(out,fn,loc)
            for kd,b_,v,e,w in out:
                if v==("null",0):
                    if ok and len(out)==1: ctx.find("%s:null"%fn,loc,"%s gives nothing for valid arguments"%fn)
                    continue
                if not ok: ctx.find("%s:failed"%fn,loc,"%s gives a node although its text is not read"%fn); continue
                if not isinstance(v,tuple): ctx.find("%s:null"%fn,loc,"%s gives no node"%fn); continue
                mm=e["mem"]
                for f,wnt in want.items():
                    ctx.ok("%s: %s"%(fn,f)); got=mm.get((v[0],v[1]+want_at[fn][f]))
                    exp=args[wnt[1]] if wnt[0]=="a" else (("val",wnt[1]),0) if wnt[0]=="ld" else None
                    if wnt[0]=="c": good=got==("null",0) or isinstance(got,Bits) and got.const()==0
                    elif isinstance(exp,Bits): good=isinstance(got,Bits) and got.b==exp.b
                    else: good=got==exp
                    if not good: ctx.find("%s:%s"%(fn,f),loc,"an expression or column built by %s does not keep its %s"%(fn,f))
                if fn=="build_expr_sval" and mm.get((v[0],v[1]+u))!=("TXT",0): ctx.find("%s:text"%fn,loc,"an expression built by %s does not keep its text"%fn)
                ty=mm.get((v[0],v[1]+struct_off(P,"expr","type"))); ty=ty.const() if isinstance(ty,Bits) else None
                if fn!="parser_alloc_column" and ty is not None: types.setdefault(fn,set()).add(ty)
    seen={}
    for fn in NODE:
        if fn=="parser_alloc_column": continue
        ctx.ok("%s: kind of node"%fn)
        t=types.get(fn,set())
        if len(t)!=1: ctx.find("%s:kind"%fn,P.fn(fn).file,"%s does not give its node one kind"%fn); continue
        k=list(t)[0]
        if k in seen: ctx.find("%s:kind"%fn,P.fn(fn).file,"%s and %s build nodes of the same kind"%(fn,seen[k]))
        seen[k]=fn
    return {f:list(t)[0] for f,t in types.items() if len(t)==1}
def tokens(ctx,P,toks):
    F=ctx.need(P.fn("sql_get_token"),"the lexer is not there")
    for text,tok in TOK.items():
        ctx.ok("token %r"%text); ctx.count("tokens")
        s=Sccp(P,lambda *a:None); s.stores={}
        r=s.run(F,[("s",text),("nn",),("nn",)])
        tk=[v for k,v in s.argstores(F,1).items()]
        want=toks["TK_"+tok]
        t=BOT
        for v in tk: t=join(t,v)
        if const(t)!=want: ctx.find("token:%r"%text,"libmsi/tokenize.c (sql_get_token)","the text %r is not read as %s"%(text,tok))
        if text in LEN and const(r[0])!=LEN[text]: ctx.find("token-length:%r"%text,"libmsi/tokenize.c (sql_get_token)","the token at the start of %r is not %d characters long"%(text,LEN[text]))
    # characters of identifiers
    G=None
    for I in P.insts(F):
        for o in operands(I):
            if o[0]=="g" and o[1] in P.globals and isinstance(P.globals[o[1]].get("init"),(list,dict)) and "256 x" in P.globals[o[1]]["t"]: G=o[1]
    if G is None: return
    t=P.globals[G]["init"]
    if isinstance(t,dict) and "s" in t: t=[ord(c) for c in t["s"]]
    for c in range(256):
        ch=chr(c); ctx.ok() if c%32==0 else None
        must=ch.isalpha() and c<128 or ch=="_" or c>=128 or c in range(48,58)
        no=ch in " \t\n\r\f`'(),=<>!?*." or c==0
        v=bool(t[c]) if c<len(t) else False
        if must and not v: ctx.find("idchar:%d"%c,"libmsi/tokenize.c (isIdChar)","the character %r no longer belongs to a name"%ch)
        if no and v: ctx.find("idchar:%d"%c,"libmsi/tokenize.c (isIdChar)","the character %r is taken as part of a name"%ch)
def keywords(ctx,P,toks):
    F=ctx.need(P.fn("sqlite_find_keyword"),"the keyword lookup is not there")
    T=None
    for I in P.calls(F):
        if P.callname(F,I)=="bsearch":
            T=I
    tbl=None
    for n,g in P.globals.items():
        if "Keyword" in g["t"] and isinstance(g.get("init"),list): tbl=(n,g["init"])
    ctx.need(tbl,"the keyword table is not there")
    rows=[(P.gcstr(e[0]),e[1]) for e in tbl[1]]
    ctx.need(len(rows)>20 and all(r[0] for r in rows),"the keyword table cannot be read")
    where="libmsi/tokenize.c (%s)"%tbl[0]
    if T is not None:
        ctx.ok("keywords are searched in order")
        ks=[r[0] for r in rows]
        for a,b in zip(ks,ks[1:]):
            if not a<b: ctx.find("order:%s"%b,where,"the keyword %s is not in alphabetical order: the binary search misses it or its neighbour"%b)
        ctx.ok()
        if T.a[2]!=("c",len(rows)): ctx.find("count",P.loc(T),"the search covers %s of %d keywords"%(T.a[2][1],len(rows)))
        if T.a[3]!=("c",16): ctx.find("size",P.loc(T),"the search steps by another size than that of an entry")
    d=dict(rows)
    for w in KW.split():
        k,_,t=w.partition(":"); t=t or k
        ctx.ok("keyword %s"%k)
        if k not in d: ctx.find("keyword:%s"%k,where,"the keyword %s is unknown"%k)
        elif d[k]!=toks["TK_"+t]: ctx.find("keyword:%s"%k,where,"the keyword %s is read as another one"%k)
    # names longer than the longest keyword are not keywords; no keyword is longer than the limit
    m=max(len(r[0]) for r in rows); ctx.ok("length limit")
    for n in range(2,m+1):
        s=Sccp(P,lambda P,F,I,nm,a: None); s.run(F,[("nn",),K(n)])
    s=Sccp(P,lambda *a:None)
    r=s.run(F,[("nn",),K(m)])
    if not any(nm=="bsearch" or nm=="sql_compare_keyword" for nm,_ in r[1].values()): ctx.find("limit",P.loc(F.blocks[0].insts[0]),"a word as long as the longest keyword (%d) is never looked up"%m)
    # case: both a and z are folded
    G=P.fn("sql_compare_keyword")
    if G:
        lo=hi=None
        for I in P.insts(G):
            if I.op=="icmp" and I.a[1][0]=="c" and isinstance(I.a[1][1],int):
                k=I.a[1][1]
                if I.pred in("sge","uge","slt","ult") and 90<=k<=100: lo=k
                if I.pred in("sgt","ugt","sle","ule") and 90<=k<=100: lo=k+1
                if I.pred in("sle","ule","sgt","ugt") and 115<=k<=130 and k!=127: hi=k
                if I.pred in("slt","ult","sge","uge") and 115<=k<=130 and k not in(127,128): hi=k-1
        ctx.ok("case folding")
        if lo is not None and lo!=97 or hi is not None and hi!=122: ctx.find("case","libmsi/tokenize.c (sql_compare_keyword)","lower-case letters from %r to %r are folded, not a to z: some keywords are only recognised in capitals"%(chr(lo or 97),chr(hi or 122)))
class Lex(Rule):
    """sql_lex: only space is skipped, the value gets the text of the token"""
    def __init__(s,ctx,P): s.ctx=ctx;s.P=P;s.n=0
    def load(s,X,st,I,A,v,fresh):
        pass
def lexer(ctx,P,toks):
    F=P.fn("sql_lex"); ctx.need(F,"sql_lex not found")
    space=toks["TK_SPACE"]; seen=False
    for I in P.insts(F):
        if I.op=="icmp" and I.a[1]==("c",space): seen=True
    ctx.ok("white space is skipped")
    if not seen: ctx.find("sql_lex:space","libmsi/sql-parser.y (sql_lex)","white space is not skipped between tokens")
