"""Conditional constant / known-bits propagation over one function (and the functions it calls) under an assumption
about some of its inputs; everything else is unknown.  A value is one of
  BOT, TOP, ("k",may,must) integer bits, ("s",text) a string, ("null",), ("nn",) some non-null pointer,
  ("type",fn), ("cls",fn), ("ev",value) an entry of an enum's table."""
from prog import *
BOT=("bot",); TOP=("top",); ALL=(1<<64)-1
def K(c): c&=ALL; return ("k",c,c)
UNK=("k",ALL,0)
def join(a,b):
    if a==b or b==BOT: return a
    if a==BOT: return b
    if a[0]=="k" and b[0]=="k": return ("k",a[1]|b[1],a[2]&b[2])
    nn={"s","nn","type","cls","ev","ctype","ctypeat","elem"}
    if a[0] in nn and b[0] in nn: return ("nn",)
    return TOP
def const(v): return v[1] if v[0]=="k" and v[1]==v[2] else None
def signed(c,w=64): return c-(1<<w) if c>>(w-1)&1 else c
WID={"i1":1,"i8":8,"i16":16,"i32":32,"i64":64}
def trunc(v,ty):
    if v[0]!="k": return v
    m=(1<<WID.get(ty,64))-1
    return ("k",v[1]&m,v[2]&m)
class Sccp:
    def __init__(self,P,assume,depth=6):
        """assume(P,F,I,name,args)->value or None for the result of a call"""
        self.P=P; self.asm=assume; self.depth=depth; self.memo={}; self.stores=None
    def run(self,F,args,depth=0):
        """(joined return value, {call inst: joined args} of the feasible calls)"""
        key=(F.name,tuple(args))
        if key in self.memo: return self.memo[key]
        self.memo[key]=(TOP,{},{})
        P=self.P; val={}; feas=set(); blk={0}; work=[0]; ret=[BOT]; sites={}; sub={}
        def get(o):
            t=o[0]
            if t=="i": return val.get(o[1],BOT)
            if t=="c": return K(o[1]) if isinstance(o[1],int) else TOP
            if t=="n": return ("null",)
            if t=="a": return args[o[1]] if o[1]<len(args) else TOP
            if t in("g","ge"):
                s=P.cstr(o)
                return ("s",s) if s is not None else ("nn",)
            return TOP
        ch=True; rounds=0; gone=set()
        while ch and rounds<60:
            ch=False; rounds+=1
            for b in rpo(F):
                if b not in blk: continue
                dead=False
                for I in F.blocks[b].insts:
                    if I is F.blocks[b].term: break
                    if I.phi is not None:
                        n=BOT
                        for v,pb in I.phi:
                            if (pb,b) in feas: n=join(n,get(v))
                    else:
                        n=self.inst(F,I,get,depth,sites,sub)
                        if n=="dead": dead=True; break
                    if n is None: n=TOP
                    o=val.get(I.id,BOT); n=trunc(n,I.ty) if I.ty in WID else n
                    if rounds>8: n=join(o,n)
                    if rounds>20 and n!=o: n=TOP if n[0]!="k" else UNK
                    if n!=o: val[I.id]=n; ch=True
                if dead: continue
                T=F.blocks[b].term; out=[]
                if T.op=="ret":
                    r=join(ret[0],get(T.a[0]) if T.a else TOP)
                    if r!=ret[0]: ret[0]=r; ch=True
                    continue
                if T.op=="br" and T.a and len(T.succ)==2:
                    c=get(T.a[0])
                    if c==BOT: continue
                    k=const(c)
                    if c[0]=="k" and c[2]&1: k=1
                    out=[T.succ[0],T.succ[1]] if k is None else [T.succ[0] if k&1 else T.succ[1]]
                elif T.op=="switch":
                    c=get(T.a[0])
                    if c==BOT: continue
                    k=const(c); w=WID.get(T.ot or "i32",32)
                    if k is None: out=[bb for v,bb in T.cases if possible(c,v)]+[T.deflt]
                    else:
                        m=(1<<32)-1
                        out=[bb for v,bb in T.cases if (v&m)==(k&m)][:1] or [T.deflt]
                else: out=F.blocks[b].succ
                for s in out:
                    if (b,s) not in feas: feas.add((b,s)); ch=True
                    if s not in blk: blk.add(s); ch=True
        r=(ret[0],{i:v for i,v in sites.items()},sub)
        self.memo[key]=r
        return r
    def argstores(self,F,n):
        """values stored through pointer parameter n of F"""
        return {k:v[1] for k,v in self.stores.items() if k[0]==F.name and v[0]==("arg",n)}
    def inst(self,F,I,get,depth,sites,sub):
        P=self.P; op=I.op; a=[get(x) for x in I.a]
        if op!="call" and any(x==BOT for x in a) and op not in("select",): return BOT
        if op=="store" and self.stores is not None:
            k=P.fieldkey(F,I.a[1])
            if k: self.stores[(F.name,I.id)]=(k,a[0])
            elif I.a[1][0]=="a": self.stores[(F.name,I.id)]=(("arg",I.a[1][1]),a[0])
            return TOP
        if op in("zext","freeze","bitcast","inttoptr","ptrtoint","trunc"):
            v=a[0]
            if op=="inttoptr" and v==K(0): return v
            if op=="ptrtoint": return v if v[0]!="null" else K(0)
            return v
        if op=="sext":
            v=a[0]; w=WID.get(I.ot or "",0) or srcw(F,I)
            if v[0]!="k" or not w: return TOP
            m=ALL&~((1<<w)-1); s=1<<(w-1)
            return ("k",v[1]|(m if v[1]&s else 0),v[2]|(m if v[2]&s else 0))
        if op=="icmp": return self.icmp(I,a)
        if op=="select":
            c=a[0]
            if c==BOT: return BOT
            k=const(c)
            if k is None: return join(a[1],a[2])
            return a[1] if k&1 else a[2]
        if op in("and","or","xor","add","sub","mul","shl","lshr","ashr"):
            x,y=a
            if x[0]!="k" : x=UNK
            if y[0]!="k" : y=UNK
            if op=="and": return ("k",x[1]&y[1],x[2]&y[2])
            if op=="or": return ("k",x[1]|y[1],x[2]|y[2])
            cx,cy=const(x),const(y)
            if cx is not None and cy is not None:
                if op=="xor": return K(cx^cy)
                if op=="add": return K(cx+cy)
                if op=="sub": return K(cx-cy)
                if op=="mul": return K(cx*cy)
                if op=="shl": return K(cx<<(cy&63))
                if op=="lshr": return K(cx>>(cy&63))
            if op=="shl" and cy is not None: return ("k",(x[1]<<cy)&ALL,(x[2]<<cy)&ALL)
            if op=="lshr" and cy is not None: return ("k",x[1]>>cy,x[2]>>cy)
            if op in("add","sub") and cy==0: return x
            # bits that do not overlap add like they or
            if op=="add" and x[1]&y[1]==0: return ("k",x[1]|y[1],x[2]|y[2])
            if op=="xor" and x[1]&y[1]==0: return ("k",x[1]|y[1],x[2]|y[2])
            if op=="sub" and y[1]&~x[2]==0: return ("k",x[1]&~y[2],x[2]&~y[1])
            return UNK
        if op=="getelementptr":
            b=a[0]
            if b[0]=="s" and len(I.p)==1:
                k=const(get(I.p[0][2]))
                if k is not None and 0<=k<=len(b[1].encode()): return ("s",b[1].encode()[k:].decode("utf-8","replace"))
                return ("nn",)
            if b[0]=="ev": return b
            idx=[x[2] for x in I.p if x[0] in "*["]
            if b[0]=="ctype" and len(I.p)==1:
                k=const(get(idx[0]))
                if k is not None and 0<=(k&0xff)<256: return ("ctypeat",k&0xff)
            if I.a[0][0]=="g" and len(I.p)==2 and idx[0]==("c",0):
                k=const(get(idx[1])); g=P.globals.get(I.a[0][1])
                if k is not None and g and g.get("const",True): return ("elem",I.a[0][1],k)
            return ("nn",)
        if op=="load":
            b=a[0]
            if b[0]=="ctype": return b
            if b[0]=="ctypeat": return K(ctype(b[1]))
            if b[0]=="elem":
                t=P.globals[b[1]].get("init")
                if isinstance(t,dict) and "s" in t: t=[ord(c) for c in t["s"]]
                if isinstance(t,list) and 0<=b[2]<len(t) and isinstance(t[b[2]],int): return K(t[b[2]])
                return TOP
            if b[0]=="s" and I.ty=="i8":
                e=b[1].encode()+b"\0"; return K(e[0])
            if b[0]=="ev" and I.ty=="i32": return K(b[1])
            if I.a[0][0]=="i":
                k=P.fieldkey(F,I.a[0])
                if k:
                    v=self.asm(P,F,I,"field:"+k[1],a)
                    if v is not None: return v
            return TOP
        if op=="call":
            n=P.callname(F,I)
            if n.startswith("llvm.expect"): return a[0]
            if n=="__ctype_b_loc": return ("ctype",)
            if n.startswith("llvm.is.constant"): return K(0)
            if any(x==BOT for x in a): return BOT
            o=sites.get(I.id); sites[I.id]=(n,[join(p,q) for p,q in zip(o[1],a)] if o else a)
            v=self.asm(P,F,I,n,a)
            if v is not None: return v
            if I.nr or n in("g_propagate_error","exit","abort","g_assertion_message_expr","g_return_if_fail_warning"): return "dead"
            if n=="g_strcmp0" or n=="strcmp":
                if a[0][0] in("s","null") and a[1][0] in("s","null"):
                    x=a[0][1] if a[0][0]=="s" else None; y=a[1][1] if a[1][0]=="s" else None
                    return K(0) if x==y else ("k",ALL,1)
                return UNK
            if n in("atoi","strtol","int_parse","g_ascii_strtoll","strtoll") and a[0][0]=="s" and a[0][1].isdigit(): return K(int(a[0][1]))
            if n=="g_strconcat" and all(x[0]=="s" for x in a[:-1]) and a[-1][0]=="null": return ("s","".join(x[1] for x in a[:-1]))
            if n=="g_strconcat" and a[0][0]!="null": return ("nn",)
            if n in("g_strdup_printf","g_string_free","g_string_new"): return ("nn",)
            if n in("g_ascii_strcasecmp","g_strcasecmp","strcasecmp") and a[0][0]==a[1][0]=="s":
                return K(0) if a[0][1].lower()==a[1][1].lower() else ("k",ALL,1)
            if n in("g_str_equal",) and a[0][0]==a[1][0]=="s": return K(1 if a[0][1]==a[1][1] else 0)
            if n in("g_utf8_strdown","g_ascii_strdown","string_down"): return ("s",a[0][1].lower()) if a[0][0]=="s" else a[0] if a[0][0]=="nn" else TOP
            if n=="g_type_class_ref" or n=="g_type_class_get" or n=="g_type_class_peek": return ("cls",a[0][1]) if a[0][0]=="type" else ("nn",)
            if n=="g_enum_get_value_by_nick" and a[0][0]=="cls":
                t=nicks(P,a[0][1])
                if t is not None and a[1][0]=="s": return ("ev",t[a[1][1]]) if a[1][1] in t else ("null",)
                return TOP
            if n in("g_strdup","g_memdup","g_memdup2","_g_object_ref0","g_object_ref","g_intern_string") or n.endswith(("_dup0","_ref0","_dup")) and I.a: return a[0]
            if n.startswith("llvm."): return TOP
            names=P.callees(F,I)
            G=P.fns.get(names[0]) if len(names)==1 else None
            if G is not None and n.endswith("_get_type") and not I.a: return ("type",n)
            if G is not None and depth<self.depth and len(G.insts)<600 and G is not F:
                s=[x for x in a]
                if any(x[0] in("s","null","k","type","cls","ev") for x in s):
                    r=self.run(G,s,depth+1); sub[I.id]=r
                    return r[0] if r[0]!=BOT or G.ret!="void" else TOP
            return TOP
        if op=="alloca": return ("nn",)
        return TOP
    def icmp(self,I,a):
        x,y=a; p=I.pred
        cx,cy=const(x),const(y)
        if x[0]=="null": x=("null",)
        nn={"s","nn","type","cls","ev","ctype","ctypeat","elem"}
        if p in("eq","ne"):
            r=None
            if x[0]=="null" and y[0]=="null": r=True
            elif (x[0] in nn and y[0]=="null") or (y[0] in nn and x[0]=="null"): r=False
            elif x[0]=="k" and y[0]=="k":
                w=srcw_op(I)
                m=(1<<w)-1
                if cx is not None and cy is not None: r=(cx&m)==(cy&m)
                elif (x[2]&~y[1]|y[2]&~x[1])&m: r=False
            elif x[0]=="k" and cx is not None and y[0]=="null": r=cx==0
            elif y[0]=="k" and cy is not None and x[0]=="null": r=cy==0
            if r is None: return ("k",1,0)
            return K(1 if r==(p=="eq") else 0)
        if cx is not None and cy is not None:
            w=srcw_op(I); m=(1<<w)-1; cx&=m; cy&=m
            if p[0]=="s": cx,cy=signed(cx,w),signed(cy,w)
            r={"lt":cx<cy,"le":cx<=cy,"gt":cx>cy,"ge":cx>=cy}[p[1:]]
            return K(1 if r else 0)
        return ("k",1,0)
def ctype(c):
    """the classes of a character in the C locale, as __ctype_b_loc has them (little endian)"""
    ch=chr(c); r=0
    if c>127: return 0
    for m,t in((0x100,ch.isupper()),(0x200,ch.islower()),(0x400,ch.isalpha()),(0x800,ch.isdigit()),(0x1000,ch in "0123456789abcdefABCDEF"),(0x2000,ch in " \t\n\v\f\r"),(0x4000,32<=c<127),(0x8000,32<c<127),(1,ch in " \t"),(2,c<32 or c==127),(4,32<c<127 and not ch.isalnum()),(8,ch.isalnum())):
        if t: r|=m
    return r
def possible(c,v):
    if c[0]!="k": return True
    v&=(1<<32)-1; m=(1<<32)-1
    return not(((c[2]&~v)|(v&~c[1]))&m)
def srcw(F,I):
    o=I.a[0]
    if o[0]=="i": return WID.get(F.insts[o[1]].ty,0)
    return 32
def srcw_op(I):
    F=I.fn
    for o in I.a:
        if o[0]=="i": return WID.get(F.insts[o[1]].ty,64)
    return 32
def nicks(P,fn):
    g=P.globals.get(fn+"_once.values")
    if g is None:
        for k,v in P.globals.items():
            if k.startswith(fn+"_once.values"): g=v; break
    if g is None or not isinstance(g.get("init"),list): return None
    t={}
    for e in g["init"]:
        if isinstance(e,list) and e[2] is not None:
            s=P.gcstr(e[2])
            if s is not None and s not in t: t[s]=e[0]
    return t
