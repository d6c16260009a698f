"""Evaluation of WHERE conditions: the truth table of every operator over the operand values, unknown (not yet joined)
operands, null and empty strings, the decoding of stored cells, and which record field each parameter takes."""
from util import *
from grammar import grammar,Actions
import c17
MINIMUM={"obligations":140,"cases":70}
L,R=("h","l"),("h","r")
SUCC,CONT=0,11
class Case(Rule):
    """explores an evaluator with given operands"""
    def __init__(s,ctx,P,fn,valarg,sub,outarg,op,cfg): s.ctx=ctx;s.P=P;s.fn=fn;s.valarg=valarg;s.sub=sub;s.outarg=outarg;s.op=op;s.cfg=cfg;s.res=[];s.sign=[]
    def preserves(s,X,st,I,k): return k[0]==("a",s.valarg) and ("a",s.valarg) not in [skipcast(X.F,a) for a in I.a]
    def keepmem(s,X,st,k,v): return k[0] in(("a",s.valarg),L,R)
    def load(s,X,st,I,A,v,fresh):
        lf=lastf(A)
        if lf and lf[1]=="op" and fresh: st.mem[A]=("c",s.op); st.env[I.id]=("c",s.op)
        if A[0] in(L,R) and not A[1]:
            k=s.cfg["str"][A[0][1]]; st.mem[A]=st.env[I.id]=("c",0 if k=="" else ord(k[0]))
    def side(s,X,st,I):
        for a in I.a:
            v=skipcast(X.F,a)
            if v[0]=="i":
                D=X.F.insts.get(v[1])
                if D is not None and D.op=="getelementptr": v=skipcast(X.F,D.a[0]); D=X.F.insts.get(v[1]) if v[0]=="i" else D
                while D is not None and D.op=="getelementptr":
                    v=skipcast(X.F,D.a[0]); D=X.F.insts.get(v[1]) if v[0]=="i" else None
                if D is not None and D.op=="load":
                    k=s.P.fieldkey(X.F,D.a[0])
                    if k and k[1] in("left","right"): return L if k[1]=="left" else R
        return None
    def call(s,X,st,I,n,names,args,ret):
        if n in s.sub:
            sd=s.side(X,st,I)
            if sd is None: s.ctx.find("%s:operand"%s.fn,s.P.loc(I),"the operand evaluated here is neither the left nor the right one"); return None
            rs=set(st.rs or ()); 
            if ("ev",sd[1]) in rs: s.ctx.find("%s:twice"%s.fn,s.P.loc(I),"an operand is evaluated twice: its parameters would be counted twice")
            if sd==L and ("ev","r") in rs: s.ctx.find("%s:order"%s.fn,s.P.loc(I),"the right operand is evaluated before the left one: parameters are taken in the wrong order")
            rs|={("ev",sd[1]),L,R}; st.rs=frozenset(rs)
            rc=s.cfg["rc"][sd[1]]
            if not X.constrain(st,ret,"eq",rc): return []
            A=X.addr(st,I.a[s.outarg])
            if rc==SUCC:
                v=s.cfg["val"].get(sd[1],sd); st.mem[A]=v
                st.rs=st.rs|{("at",sd[1],A)}
                f=s.cfg.get("truth",{}).get(sd[1])
                if f is not None and v==sd: st.facts[sd]=(-INF,INF,frozenset([0])) if f else (0,0,frozenset())
                if s.cfg.get("rel"): st.cmps[(L,R)]=frozenset(s.cfg["rel"])
            elif s.cfg.get("contval"): st.mem[A]=("c",0)
            return None
        if n in("strcmp","g_strcmp0"):
            if set(args[:2])=={L,R}:
                eq=s.cfg["str"]["l"]==s.cfg["str"]["r"]
                return [st] if X.constrain(st,ret,"eq" if eq else "ne",0) else []
            for a in args[:2]:
                if a not in(L,R) and a!=("c",0): s.ctx.find("%s:strcmp"%s.fn,s.P.loc(I),"something else than the operands is compared")
        return None
    def icmp(s,X,st,I,a,b):
        if {a,b}=={L,R} and I.pred[0]=="u" and "str" not in s.cfg: s.sign.append(I)
    def ret(s,X,st,I,v):
        r=X.value(st,v) if v is not None else TOP
        w=None
        for k,x in st.mem.items():
            if k==(("a",s.valarg),()): w=x
        t=X.value(st,w) if w is not None else None
        s.res.append((I,r,t,frozenset(x[1] for x in st.rs or () if x[0]=="ev")))
def truth(t):
    if t is None: return None
    if t[0]==t[1]==0: return False
    if t[0]>0 or t[1]<0 or 0 in t[2]: return True
    return None
def judge(ctx,P,C,name,rc,want,both=True):
    ctx.ok(name); ctx.count("cases")
    key="%s:%s"%(C.fn,name)
    if not C.res: ctx.find(key,P.fn(C.fn).file,"%s: no result for %s"%(C.fn,name)); return
    for I,r,t,ev in C.res:
        if not(r[0]==r[1]==rc):
            ctx.find(key,P.loc(I),"%s does not return %s"%(name,"success" if rc==SUCC else "'continue'")); return
        if want is not None and truth(t)!=want:
            ctx.find(key,P.loc(I),"%s is not evaluated as %s"%(name,"true" if want else "false")); return
        if both and ev!={"l","r"}: ctx.find(C.fn+":both",P.loc(I),"an operand is not evaluated: the parameters after it would be taken from the wrong field"); return
REL={"EQ":"e","NE":"lg","LT":"l","GT":"g","LE":"le","GE":"ge"}
def binary(ctx,P,oc):
    fn="expr_eval_binary"; F=ctx.need(P.fn(fn),"%s not found"%fn)
    def go(op,cfg):
        C=Case(ctx,P,fn,3,{"where_view_evaluate"},3,oc[op],cfg); Explorer(P,F,C).run(); return C
    nm={"l":"less than","e":"equal to","g":"greater than"}
    for op,rel in REL.items():
        for x in "leg":
            C=go(op,{"rc":{"l":SUCC,"r":SUCC},"val":{},"rel":x})
            judge(ctx,P,C,"%s when left is %s right"%(op,nm[x]),SUCC,x in rel)
            for I in C.sign: ctx.find("binary:sign",P.loc(I),"numbers are compared without sign: a negative one counts as large")
    for op in("AND","OR"):
        for l in(False,True):
            for r in(False,True):
                C=go(op,{"rc":{"l":SUCC,"r":SUCC},"val":{},"truth":{"l":l,"r":r}})
                judge(ctx,P,C,"%s of %s and %s"%(op,l,r),SUCC,(l and r) if op=="AND" else (l or r))
            for sd in "lr":
                o="r" if sd=="l" else "l"
                C=go(op,{"rc":{sd:CONT,o:SUCC},"val":{},"truth":{o:l}})
                det=(op=="AND" and not l) or (op=="OR" and l)
                judge(ctx,P,C,"%s with %s side unknown and the other %s"%(op,"left" if sd=="l" else "right",l),SUCC if det else CONT,(op=="OR") if det else True)
    for op in list(REL)+["AND","OR"]:
        C=go(op,{"rc":{"l":CONT,"r":CONT},"val":{}}); judge(ctx,P,C,"%s with both sides unknown"%op,CONT,True)
        if op in REL:
            for sd in "lr":
                C=go(op,{"rc":{sd:CONT,"l" if sd=="r" else "r":SUCC},"val":{}}); judge(ctx,P,C,"%s with %s side unknown"%(op,sd),CONT,True)
def strings(ctx,P,oc):
    fn="expr_eval_strcmp"; F=ctx.need(P.fn(fn),"%s not found"%fn)
    vals={"null":None,"empty":"","a":"a","b":"b"}
    for op in("EQ","NE"):
        for a in vals:
            for b in vals:
                cfg={"rc":{"l":SUCC,"r":SUCC},"val":{},"str":{"l":vals[a],"r":vals[b]},"truth":{"l":True,"r":True}}
                if vals[a] is None: cfg["val"]["l"]=("c",0)
                if vals[b] is None: cfg["val"]["r"]=("c",0)
                if vals[a]!=vals[b]: cfg["rel"]="lg"
                C=Case(ctx,P,fn,3,{"expr_eval_string"},4,oc[op],cfg); Explorer(P,F,C).run()
                judge(ctx,P,C,"string %s of %s and %s"%(op,a,b),SUCC,((vals[a] or "")==(vals[b] or ""))==(op=="EQ"))
        for sd in "lr":
            cfg={"rc":{sd:CONT,"l" if sd=="r" else "r":SUCC},"val":{},"str":{"l":"a","r":"b"},"contval":1}
            C=Case(ctx,P,fn,3,{"expr_eval_string"},4,oc[op],cfg); Explorer(P,F,C).run()
            judge(ctx,P,C,"string %s with %s side unknown"%(op,sd),CONT,True)
def unary(ctx,P,oc):
    fn="expr_eval_unary"; F=ctx.need(P.fn(fn),"%s not found"%fn)
    for op in("ISNULL","NOTNULL"):
        for t in(False,True):
            C=Case(ctx,P,fn,3,{"expr_fetch_value"},2,oc[op],{"rc":{"l":SUCC,"r":SUCC},"val":{},"truth":{"l":t}}); Explorer(P,F,C).run()
            judge(ctx,P,C,"%s of a %s cell"%(op,"filled" if t else "null"),SUCC,t==(op=="NOTNULL"),both=False)
        C=Case(ctx,P,fn,3,{"expr_fetch_value"},2,oc[op],{"rc":{"l":CONT,"r":SUCC},"val":{}}); Explorer(P,F,C).run()
        judge(ctx,P,C,"%s of an unknown cell"%op,CONT,None,both=False)
def linear(F,o,k=0):
    """(source, constant added mod 2^32)"""
    for _ in range(10):
        o=skipcast(F,o)
        if o[0]!="i": return o,k
        I=F.insts[o[1]]
        c=I.a[1][1] if I.op in("add","sub","xor") and I.a[1][0]=="c" else None
        if I.op in("add","sub") and c is not None: k=(k+(c if I.op=="add" else -c))&0xffffffff; o=I.a[0]; continue
        if I.op=="xor" and c is not None and c&0xffffffff==0x80000000: k=(k+c)&0xffffffff; o=I.a[0]; continue
        return o,k
    return o,k
class Eval(Rule):
    """where_view_evaluate for one kind of node"""
    def __init__(s,ctx,P,kind,code): s.ctx=ctx;s.P=P;s.kind=kind;s.code=code;s.res=[]
    def keepmem(s,X,st,k,v): return k[0]==("a",3)
    def load(s,X,st,I,A,v,fresh):
        lf=lastf(A)
        if lf and lf[1]=="type" and A[0]==("a",2) and fresh: st.mem[A]=st.env[I.id]=("c",s.code)
    def call(s,X,st,I,n,names,args,ret):
        st.rs=(st.rs or frozenset())|{("call",n,tuple(args))}
        if n=="expr_fetch_value" and not X.constrain(st,ret,"eq",0): return []
        if n.startswith("expr_eval"): st.rs=st.rs|{("sub",n,tuple(args),ret)}
    def store(s,X,st,I,A,v):
        if A==(("a",3),()):
            src,k=linear(X.F,I.a[0]); D=X.F.insts.get(src[1]) if src[0]=="i" else None
            d=("?",)
            if D is not None and D.op=="load":
                B=X.addr(st,D.a[0]); lf=lastf(B)
                d=("field",lf) if lf else ("local",B[0])
            elif D is not None and D.op=="call": d=("call",s.P.callname(X.F,D))
            elif src[0]=="c": d=("const",src[1])
            st.rs=(st.rs or frozenset())|{("val",d,k)}
        lf=lastf(A)
        if lf and lf[1]=="rec_index":
            src,k=linear(X.F,I.a[0]); D=X.F.insts.get(src[1]) if src[0]=="i" else None
            own=D is not None and D.op=="load" and (s.P.fieldkey(X.F,D.a[0]) or (0,0))[1]=="rec_index"
            st.rs=(st.rs or frozenset())|{("inc",k if own else "?",v)}
    def ret(s,X,st,I,v): s.res.append((I,X.value(st,v),st.rs or frozenset()))
class StrEval(Eval):
    """expr_eval_string"""
    def keepmem(s,X,st,k,v): return k[0]==("a",4)
    def store(s,X,st,I,A,v):
        if A==(("a",4),()):
            o=skipcast(X.F,I.a[0]); D=X.F.insts.get(o[1]) if o[0]=="i" else None
            if D is not None and D.op=="load":
                d=("field",lastf(X.addr(st,D.a[0])))
            elif D is not None and D.op=="call": d=("call",s.P.callname(X.F,D))
            else: d=("const",0)
            st.rs=frozenset(x for x in st.rs or () if x[0]!="val")|{("val",d,0)}
        else: Eval.store(s,X,st,I,A,v)
def evaluate(ctx,P,kinds):
    fn="where_view_evaluate"; F=ctx.need(P.fn(fn),"%s not found"%fn)
    def go(kind,cls=Eval,f=None,a=2):
        E=cls(ctx,P,kind,kinds[kind]); E2=E
        if a!=2:
            def load(X,st,I,A,v,fresh):
                lf=lastf(A)
                if lf and lf[1]=="type" and fresh: st.mem[A]=st.env[I.id]=("c",kinds[kind])
            E.load=load
        Explorer(P,f or F,E).run(facts={("a",a):(1,INF,frozenset())}); return E
    G=ctx.need(P.fn("expr_eval_string"),"expr_eval_string not found")
    def bad(fn,kind,I,what): ctx.find("%s:%s"%(fn,kind),P.loc(I),what)
    for kind,off in(("NUMBER",-0x8000),("NUMBER32",-0x80000000)):
        E=go(kind); ctx.ok("%s cells"%kind); ctx.count("cases")
        ctx.need(E.res,"no way through %s for a column"%fn)
        for I,r,rs in E.res:
            v=[x for x in rs if x[0]=="val"]
            if not any(x[0]=="call" and x[1]=="expr_fetch_value" for x in rs) or len(v)!=1 or v[0][1][0]!="local" or (v[0][2]-off)&0xffffffff: bad(fn,kind,I,"a cell of a %s-byte integer column is not decoded as the writer encodes it"%(2 if kind=="NUMBER" else 4))
    E=go("UVAL"); ctx.ok("constants")
    for I,r,rs in E.res:
        v=[x for x in rs if x[0]=="val"]
        if len(v)!=1 or v[0][1][0]!="field" or v[0][2]!=0: bad(fn,"UVAL",I,"a constant of the condition does not evaluate to itself")
    for kind,sub in(("COMPLEX","expr_eval_binary"),("UNARY","expr_eval_unary"),("STRCMP","expr_eval_strcmp")):
        E=go(kind); ctx.ok("%s nodes"%kind)
        if not E.res: ctx.need(False,"no way through %s for %s"%(fn,kind))
        for I,r,rs in E.res:
            c=[x for x in rs if x[0]=="call" and x[1]==sub]
            if not c or any(x[2][j]!=("a",k) for x in c for j,k in((0,0),(1,1),(3,3),(4,4))): bad(fn,kind,I,"a node of this kind is not passed to %s with the same row, result and record"%sub)
    for f,E,what in((F,go("WILDCARD"),"libmsi_record_get_int"),(G,go("WILDCARD",StrEval,G,3),"_libmsi_record_get_string_raw")):
        ctx.ok("parameters in %s"%f.src); ctx.count("cases")
        ctx.need(E.res,"no way through %s for a parameter"%f.src)
        for I,r,rs in E.res:
            v=[x for x in rs if x[0]=="val"]; inc=[x for x in rs if x[0]=="inc"]; c=[x for x in rs if x[0]=="call" and x[1]==what]
            if len(inc)!=1 or inc[0][1]!=1: bad(f.src,"WILDCARD",I,"a parameter does not advance to the next field of the record by one")
            elif not c or len(v)!=1 or v[0][1]!=("call",what): bad(f.src,"WILDCARD",I,"the value of a parameter is not taken from the record")
            elif c[0][2][1]!=inc[0][2]: bad(f.src,"WILDCARD",I,"a parameter takes another field than the one counted")
    E=go("NUMBER_STRING",StrEval,G,3); ctx.ok("string cells")
    for I,r,rs in E.res:
        if r[0]==r[1]==0 and not any(x[0]=="val" and x[1]==("call","msi_string_lookup_id") for x in rs): bad(G.src,"NUMBER_STRING",I,"a string cell is not looked up in the string pool")
    E=go("SVAL",StrEval,G,3); ctx.ok("string constants")
    for I,r,rs in E.res:
        if not any(x[0]=="val" and x[1][0]=="field" for x in rs): bad(G.src,"SVAL",I,"a string constant does not evaluate to itself")
class Verify(Rule):
    """where_view_verify_condition with given kinds of the node and its operands"""
    def __init__(s,ctx,P,cfg): s.P=P;s.cfg=cfg;s.res=[]
    def preserves(s,X,st,I,k): return k[0]==("a",2) and ("a",2) not in [skipcast(X.F,a) for a in I.a]
    def keepmem(s,X,st,k,v): return k[0] in(("a",2),) or lastf(k) is not None and lastf(k)[1]=="type"
    def which(s,X,st,A):
        b=A[0]
        if b==("a",1): return "node"
        if b[0]=="i":
            D=X.F.insts.get(b[1])
            if D is not None and D.op=="load":
                k=s.P.fieldkey(X.F,D.a[0])
                if k: return k[1]
        for k in st.rs or ():
            if k[0]=="ptr" and k[2]==b: return k[1]
        return None
    def load(s,X,st,I,A,v,fresh):
        lf=lastf(A)
        if not lf or not fresh: return
        if lf[1]=="type":
            w=s.which(X,st,A)
            if w in s.cfg["kind"]: st.mem[A]=st.env[I.id]=("c",s.cfg["kind"][w])
        if lf[1]=="op": st.mem[A]=st.env[I.id]=("c",s.cfg.get("op",1))
    def call(s,X,st,I,n,names,args,ret):
        if n=="where_view_verify_condition":
            w=s.which(X,st,(args[1],())); st.rs=(st.rs or frozenset())|{("verified",w)}
            if not X.constrain(st,ret,"eq",0): return []
            A=X.addr(st,I.a[2]); st.mem[A]=("c",0 if s.cfg.get("invalid")==w else 1)
        if n=="parse_column":
            if not X.constrain(st,ret,"eq",s.cfg.get("parse",0)): return []
            A=X.addr(st,I.a[2]); st.mem[A]=("c",s.cfg.get("coltype",0))
    def store(s,X,st,I,A,v):
        lf=lastf(A)
        if lf and lf[1]=="type" and A[0]==("a",1): st.rs=frozenset(x for x in st.rs or () if x[0]!="type")|{("type",v)}
        if lf is None and A==(("a",2),()): pass
    def ret(s,X,st,I,v):
        w=st.mem.get((("a",2),())); s.res.append((I,X.value(st,v),truth(X.value(st,w)) if w is not None else None,st.rs or frozenset()))
def verify(ctx,P,K,oc):
    fn="where_view_verify_condition"; F=ctx.need(P.fn(fn),"%s not found"%fn)
    def go(**cfg):
        V=Verify(ctx,P,cfg); Explorer(P,F,V).run(); ctx.need(V.res,"no way through %s"%fn); return V.res
    def typ(rs,d): 
        t=[x[1] for x in rs if x[0]=="type"]; return t[0][1] if t and t[0][0]=="c" else d
    STR=0x800
    for ct,want,nm in((STR,K["NUMBER_STRING"],"string"),(STR|255,K["NUMBER_STRING"],"CHAR(255)"),(STR|4,K["NUMBER_STRING"],"CHAR(4)"),(4,K["NUMBER32"],"LONG"),(0x2000|4,K["NUMBER32"],"LONG key"),(2|0x400,K["NUMBER"],"SHORT"),(2,K["NUMBER"],"SHORT")):
        ctx.ok("column type %s"%nm); ctx.count("cases")
        for I,r,t,rs in go(kind={"node":K["COLUMN"]},coltype=ct):
            if not(r[0]==r[1]==0) or t is not True or typ(rs,None)!=want: ctx.find("%s:column:%x"%(fn,ct),P.loc(I),"a %s column in a condition is decoded as another type"%nm)
    ctx.ok("unknown column")
    for I,r,t,rs in go(kind={"node":K["COLUMN"]},parse=1615):
        if t is not False and r[0]==r[1]==0: ctx.find("%s:unknown"%fn,P.loc(I),"a condition on a column that does not exist is accepted")
    # a string on either side makes it a string comparison, = and <> only
    for a,b in(("NUMBER_STRING","WILDCARD"),("NUMBER_STRING","SVAL"),("SVAL","NUMBER_STRING"),("NUMBER_STRING","NUMBER_STRING"),("WILDCARD","SVAL")):
        for op in("EQ","NE","LT","GT","LE","GE"):
            ctx.ok("string comparison"); ctx.count("cases")
            for I,r,t,rs in go(kind={"node":K["COMPLEX"],"left":K[a],"right":K[b]},op=oc[op]):
                acc=r[0]==r[1]==0
                if op in("EQ","NE"):
                    if not acc or t is not True or typ(rs,None)!=K["STRCMP"]: ctx.find("%s:%s:%s:%s"%(fn,a,b,op),P.loc(I),"strings are not compared as strings (%s of %s and %s)"%(op,a,b))
                elif acc and t is not False: ctx.find("%s:%s:%s:%s"%(fn,a,b,op),P.loc(I),"the order of strings is compared although only = and <> are defined for them")
    for a,b in(("NUMBER","UVAL"),("NUMBER32","WILDCARD"),("NUMBER","NUMBER32"),("COMPLEX","COMPLEX"),("STRCMP","UNARY")):
        for op in(("AND","OR") if a in("COMPLEX","STRCMP") else ("EQ","LT")):
            ctx.ok("number comparison"); ctx.count("cases")
            for I,r,t,rs in go(kind={"node":K["COMPLEX"],"left":K[a],"right":K[b]},op=oc[op]):
                if not(r[0]==r[1]==0) or t is not True or typ(rs,K["COMPLEX"])!=K["COMPLEX"]: ctx.find("%s:%s:%s"%(fn,a,b),P.loc(I),"a condition of numbers or conditions is not accepted as such")
                if not {("verified","left"),("verified","right")}<=rs: ctx.find("%s:descend"%fn,P.loc(I),"a side of the condition is not checked")
    for w in("left","right"):
        ctx.ok("invalid operand")
        for I,r,t,rs in go(kind={"node":K["COMPLEX"],"left":K["NUMBER"],"right":K["UVAL"]},op=oc["EQ"],invalid=w):
            if r[0]==r[1]==0 and t is not False: ctx.find("%s:invalid:%s"%(fn,w),P.loc(I),"a condition is accepted although its %s side is not valid"%w)
    ctx.ok("integer constants")
    for I,r,t,rs in go(kind={"node":K["IVAL"]}):
        if typ(rs,None)!=K["UVAL"] or t is not True: ctx.find("%s:ival"%fn,P.loc(I),"an integer constant is not accepted")
    for k in("WILDCARD","SVAL"):
        ctx.ok("constants and parameters")
        for I,r,t,rs in go(kind={"node":K[k]}):
            if typ(rs,K[k])!=K[k] or t is not True: ctx.find("%s:%s"%(fn,k),P.loc(I),"a parameter or string constant is not accepted")
    ctx.ok("IS NULL of a column only")
    for I,r,t,rs in go(kind={"node":K["UNARY"],"left":K["COLUMN"]},op=oc["ISNULL"]):
        if not(r[0]==r[1]==0) or t is not True or ("verified","left") not in rs: ctx.find("%s:unary"%fn,P.loc(I),"IS NULL of a column is not accepted, or the column is not resolved")
    for I,r,t,rs in go(kind={"node":K["UNARY"],"left":K["IVAL"]},op=oc["ISNULL"]):
        if r[0]==r[1]==0 and t is not False: ctx.find("%s:unary"%fn,P.loc(I),"IS NULL of something that is not a column is accepted")
class Rows(Rule):
    """check_condition: parameters are counted afresh for every row, and a row counts only when its condition is true"""
    def __init__(s,ctx,P): s.ctx=ctx;s.P=P;s.n=0;s.added=0
    def ev(s,st,e,drop=()): st.rs=frozenset(x for x in st.rs or () if x[0] not in drop)|{e}
    def store(s,X,st,I,A,v):
        lf=lastf(A)
        if lf and lf[1]=="rec_index": s.ev(st,("reset",v),("reset",))
    def call(s,X,st,I,n,names,args,ret):
        if n=="where_view_evaluate":
            s.n+=1; s.ctx.ok("row is evaluated")
            if ("reset",("c",0)) not in (st.rs or ()): s.ctx.find("check_condition:reset",s.P.loc(I),"the count of parameters is not reset for each row: from the second row on the wrong fields are used")
            A=X.addr(st,I.a[3]); st.mem[A]=("h","v"); st.rs=frozenset(x for x in st.rs or () if x[0] not in("reset","rc","h"))|{("h","v"),("rc",ret)}
        if n in("add_row","check_condition"):
            s.ctx.ok("row is taken"); s.added+=n=="add_row"
            if truth(X.fact(st,("h","v"))) is not True: s.ctx.find("check_condition:%s"%n,s.P.loc(I),"a row for which the condition is false is taken")
            if n=="add_row":
                rc=[x[1] for x in st.rs or () if x[0]=="rc"]
                f=X.value(st,rc[0]) if rc else TOP
                if not(f[0]==f[1]==0): s.ctx.find("check_condition:undecided",s.P.loc(I),"a row for which the condition is not decided is taken")
        return None
class Complete(Rule):
    """a row whose condition is true is not skipped: true leads to add_row or the next table"""
    def __init__(s,ctx,P): s.ctx=ctx;s.P=P
    def call(s,X,st,I,n,names,args,ret):
        rs=st.rs or frozenset()
        if n=="where_view_evaluate":
            if ("due",) in rs: s.ctx.find("check_condition:skip",s.P.loc(I),"a row for which the condition is true is skipped")
            A=X.addr(st,I.a[3]); out=[]
            st.mem[A]=("c",1)
            if not X.constrain(st,ret,"eq",0): return []
            st.rs=frozenset({("due",)})
        if n in("add_row","check_condition"): st.rs=frozenset(x for x in rs if x!=("due",))
        return None
    def ret(s,X,st,I,v):
        if ("due",) in (st.rs or ()): s.ctx.find("check_condition:skip",s.P.loc(I),"a row for which the condition is true is skipped")
def rows(ctx,P):
    F=ctx.need(P.fn("check_condition"),"check_condition not found")
    R=Rows(ctx,P); Explorer(P,F,R).run(); ctx.need(R.n and R.added,"no evaluation of rows found")
    ctx.ok("no true row is skipped"); Explorer(P,F,Complete(ctx,P)).run()
class Merge(Rule):
    """INSERT/UPDATE values: the n-th parameter takes the n-th field"""
    def __init__(s,ctx,P,code): s.ctx=ctx;s.P=P;s.code=code;s.n=0
    def load(s,X,st,I,A,v,fresh):
        lf=lastf(A)
        if lf and lf[1]=="type" and fresh: st.mem[A]=st.env[I.id]=("c",s.code)
    def call(s,X,st,I,n,names,args,ret):
        if n=="_libmsi_record_copy_field":
            s.n+=1; s.ctx.ok("parameter of a value list")
            o=skipcast(X.F,I.a[1]); D=X.F.insts.get(o[1]) if o[0]=="i" else None
            ok=False
            if D is not None and D.op=="phi":
                # counter: starts at 1, advanced by one after a parameter only
                ok=True; start=[c for c in origin2(X.F,D)]
                ok=("c",1) in start and all(c==("c",1) or c==("inc",1) for c in start)
            if not ok: s.ctx.find("merge:counter",s.P.loc(I),"the parameters of a value list are not counted from one, one by one")
            if args[0]!=("a",2): s.ctx.find("merge:record",s.P.loc(I),"the value of a parameter is not taken from the record")
        return None
def origin2(F,D):
    """values of a loop counter: constants and increments of itself"""
    out=set(); seen=set(); w=[("i",D.id)]
    while w:
        x=w.pop()
        if x in seen: continue
        seen.add(x)
        if x[0]!="i": out.add(x); continue
        I=F.insts[x[1]]
        if I.op=="phi": w+=[v for v,_ in I.phi]
        elif I.op=="add" and I.a[1][0]=="c": out.add(("inc",I.a[1][1])); w.append(I.a[0])
        elif I.op in("zext","sext","trunc"): w.append(I.a[0])
        else: out.add(x)
    return out
def values(ctx,P,K):
    F=ctx.need(P.fn("msi_query_merge_record"),"msi_query_merge_record not found")
    M=Merge(ctx,P,K["WILDCARD"]); Explorer(P,F,M).run(); ctx.need(M.n,"parameters of value lists not found")
class Markers:
    """the findings of the interpreted statements (c32) that are about the values of their markers"""
    KEYS={"update:markers","update:condition","update:values","insert:markers","insert:columns"}
    def __init__(s,c): s.c=c
    def __getattr__(s,n): return getattr(s.c,n)
    def find(s,key,where,what):
        if key in s.KEYS: s.c.find(key,where,what)
def statements(ctx,P):
    """INSERT and UPDATE with constants and parameters: the parameters of SET come first, then those of WHERE"""
    import c32
    T=c32.Statements(Markers(ctx),P); T.insert(); T.update()
def run(ctx):
    P=ctx.prog("libmsi"); F=ctx.need(P.fn("sql_parse"),"the parser is not there")
    rules,prec,toks=grammar(); A=Actions(P,F,rules); ctx.need(A.ok,"the actions of the parser not found")
    oc=c17.opcodes(P,A,rules); ctx.need(len(oc)>=10,"operators of conditions not found")
    K={}
    class Q:
        def __getattr__(s,n): return lambda *a: None
    t=c17.nodes(Quiet(ctx),P)
    K={"COMPLEX":t.get("build_expr_complex"),"UNARY":t.get("build_expr_unary"),"IVAL":t.get("build_expr_ival"),"SVAL":t.get("build_expr_sval"),"WILDCARD":t.get("build_expr_wildcard"),"COLUMN":t.get("build_expr_column")}
    ctx.need(all(v is not None for v in K.values()),"kinds of expression nodes not found")
    kinds(ctx,P,K,oc)
    binary(ctx,P,oc); strings(ctx,P,oc); unary(ctx,P,oc); evaluate(ctx,P,K); verify(ctx,P,K,oc); rows(ctx,P); values(ctx,P,K); statements(ctx,P)
    ctx.fns(["where_view_evaluate","expr_eval_binary","expr_eval_unary","expr_eval_strcmp","expr_eval_string","where_view_verify_condition","check_condition","msi_query_merge_record","update_view_execute"])
    ctx.rule("Each evaluator is explored with the operator fixed to the code the parser gives it and the operands fixed to one relation, truth value, null state or 'unknown'; on every feasible path the stored result and the return code must be those of the truth table, with both operands evaluated, left first. The decoding offsets, parameter counters and node kinds are read from the code that feeds them.")
class Quiet:
    def __init__(s,c): s.c=c
    def ok(s,*a): pass
    def count(s,*a): pass
    def find(s,*a): pass
    def need(s,x,m): return s.c.need(x,m)
    def stuck(s,*a): pass
def kinds(ctx,P,K,oc):
    """the kinds the verifier assigns, found by exploring it with the corresponding column types"""
    F=ctx.need(P.fn("where_view_verify_condition"),"where_view_verify_condition not found")
    def one(**cfg):
        V=Verify(ctx,P,cfg); Explorer(P,F,V).run()
        ts={x[1][1] for _,r,t,rs in V.res for x in rs if x[0]=="type" and x[1][0]=="c"}
        return list(ts)[0] if len(ts)==1 else None
    K["UVAL"]=one(kind={"node":K["IVAL"]})
    K["NUMBER_STRING"]=one(kind={"node":K["COLUMN"]},coltype=0x800|255)
    K["NUMBER32"]=one(kind={"node":K["COLUMN"]},coltype=4)
    K["NUMBER"]=one(kind={"node":K["COLUMN"]},coltype=2|0x400)
    K["STRCMP"]=one(kind={"node":K["COMPLEX"],"left":K["NUMBER_STRING"] or -1,"right":K["SVAL"]},op=oc["EQ"])
    names={"NUMBER":"a SHORT column","NUMBER32":"a LONG column","NUMBER_STRING":"a string column","UVAL":"an integer constant","STRCMP":"a string comparison"}
    vs=[K[k] for k in names]
    ctx.ok("kinds of checked nodes")
    if None in vs or len(set(vs))!=len(vs) : ctx.find("kinds",P.loc(F.blocks[0].insts[0]),"the checked condition does not distinguish %s"%", ".join(names[k] for k in names if K[k] is None or vs.count(K[k])>1)); ctx.need(False,"kinds of checked nodes are not distinct")
