"""Storage of table cells: the integer encoding of writer and every reader, the byte order of a cell, the column-major
layout of the table stream, the width of a column, and which rows are saved."""
from util import *
from affine import *
import cellsim
MINIMUM={"obligations":60,"sinks":20}
STR,BIN,KEY,NUL,VALID=0x800,0x900,0x2000,0x1000,0x100
TYPES=((VALID|2,2,"SHORT"),(VALID|2|KEY,2,"SHORT key"),(VALID|2|NUL|0x400,2,"nullable SHORT"),(VALID|4,4,"LONG"),(VALID|4|KEY,4,"LONG key"),(VALID|4|NUL,4,"nullable LONG"))
SRC=("h","raw")
# ------------------------------------------------------------------ encoding
class Codec(Rule):
    """one encoder or decoder, explored for a column of given type; collects (source, constant) at its sinks"""
    fetch={"table_view_fetch_int":3}; slotfetch=3; reads=("read_raw_int","read_table_int"); getint=("libmsi_record_get_int",)
    def __init__(s,ctx,P,typ,width,sinks,cond=None): s.ctx=ctx;s.P=P;s.typ=typ;s.w=width;s.sinks=sinks;s.hits=[];s.cond=cond
    def keepmem(s,X,st,k,v): return v==SRC or k in s.outs if hasattr(s,"outs") else v==SRC
    def load(s,X,st,I,A,v,fresh):
        lf=lastf(A)
        if lf and lf[1]=="type" and fresh: st.mem[A]=st.env[I.id]=("c",s.typ)
    def call(s,X,st,I,n,names,args,ret):
        if n=="bytes_per_column":
            return None if X.constrain(st,ret,"eq",s.w) else []
        o=None
        if n in s.fetch: o=s.fetch[n]
        elif I.callee[0]!="g":
            sl=(s.P.slotname(X.F,I) or (0,0))[1]
            if sl=="fetch_int": o=s.slotfetch
            if sl=="get_column_info":
                # the type is the out argument that is compared with masks; the name is not requested
                A=X.addr(st,I.a[3]); st.mem[A]=("c",s.typ); s.outs=getattr(s,"outs",set())|{A}
                if not X.constrain(st,ret,"eq",0): return []
        if o is not None:
            if not X.constrain(st,ret,"eq",0): return []
            A=X.addr(st,I.a[o]); st.mem[A]=SRC; st.facts[SRC]=(-INF,INF,frozenset([0])); st.rs=frozenset([SRC]); s.outs=getattr(s,"outs",set())|{A}
        if n=="libmsi_record_is_null":
            return None if X.constrain(st,ret,"eq",0) else []
        for name,arg in s.sinks:
            if n==name: s.sink(X,st,I,I.a[arg])
        return None
    def sink(s,X,st,I,o): s.hits.append((I,)+s.linear(X,st,o)+(dict(st.facts),))
    def const(s,X,st,o):
        if o[0]=="c": return o[1] if isinstance(o[1],int) else None
        o=X.sym(st,o)
        if o[0]=="c": return o[1] if isinstance(o[1],int) else None
        if o[0]=="i" and X.F.insts[o[1]].op=="select":
            I=X.F.insts[o[1]]; f=X.value(st,I.a[0])
            if f[0]==f[1]: return s.const(X,st,I.a[1] if f[0] else I.a[2])
        return None
    def linear(s,X,st,o):
        """(kind of source, constant) of a value on this path"""
        k=0; F=X.F
        for _ in range(20):
            o=X.sym(st,o)
            if o==SRC: return "cell",k
            if o[0]!="i": return o,k
            I=F.insts[o[1]]
            if I.op=="select":
                f=X.value(st,I.a[0])
                if f[0]==f[1]: o=I.a[1] if f[0] else I.a[2]; continue
            c=v=None
            if I.op in("add","sub","xor","or"):
                ks=[s.const(X,st,x) for x in I.a[:2]]
                c=next((x for x in ks if x is not None),None); v=next((x for x,y in zip(I.a,ks) if y is None),None)
            if I.op=="add" and c is not None: k+=c; o=v; continue
            if I.op=="sub" and c is not None and ks[1] is not None: k-=c; o=v; continue
            if I.op=="xor" and c is not None and c&0xffffffff==0x80000000: k+=0x80000000; o=v; continue
            if I.op in CASTS: o=I.a[0]; continue
            if I.op=="call":
                n=s.P.callname(F,I)
                if n in s.reads: return "cell",k
                if n in s.getint: return "field",k
            if I.op=="load":
                A=X.addr(st,I.a[0])
                if A in getattr(s,"outs",()): return "cell",k
            return o,k
        return o,k
def codecs(ctx,P):
    SET=(("libmsi_record_set_int",2),)
    for fn,sinks,want,what in(
        ("msi_view_get_row",SET,-1,"the record of a fetched row"),
        ("msi_stream_name",(("sprintf",2),("snprintf",3),("__sprintf_chk",4),("__snprintf_chk",5),("g_snprintf",3),("g_strdup_printf",1)),-1,"the name of a stream"),
        ("msi_get_transform_record",SET,-1,"the record of a transform row")):
        F=ctx.need(P.fn(fn),"%s not found"%fn); ctx.fns([fn])
        for typ,w,nm in TYPES:
            if fn=="msi_stream_name" and not typ&KEY: continue
            R=Codec(ctx,P,typ,w,sinks)
            if fn=="msi_stream_name":
                pass
            Explorer(P,F,R).run()
            ctx.need(R.hits,"%s: no integer reaches %s for a %s column"%(fn,what,nm))
            off=-0x8000 if w==2 else -0x80000000
            for I,src,k,_ in R.hits:
                ctx.ok("%s: %s column"%(P.loc(I),nm)); ctx.count("sinks")
                if src!="cell" or (k-off)&0xffffffff: ctx.find("%s:%d"%(fn,w),P.loc(I),"%s: a cell of a %d-byte integer column is not turned into the number it stores (offset %s)"%(fn,w,hex(k) if src=="cell" else "?"))
    # columns of a table: number and type
    fn="get_tablecolumns"; F=ctx.need(P.fn(fn),"%s not found"%fn); n=0; ctx.fns([fn])
    class T(Codec):
        def load(s,*a): pass
        def store(s,X,st,I,A,v):
            lf=lastf(A)
            if lf and lf[1] in("number","type"): s.hits.append((I,)+s.linear(X,st,I.a[0])+(None,))
    R=T(ctx,P,0,2,()); Explorer(P,F,R).run(); ctx.need(R.hits,"columns are no longer read in %s"%fn)
    for I,src,k,_ in R.hits:
        ctx.ok("%s: column number and type"%P.loc(I)); ctx.count("sinks")
        if src!="cell" or (k+0x8000)&0xffffffff: ctx.find("%s:short"%fn,P.loc(I),"the number or type of a column is not decoded as it is stored")
    # the encoders
    fn="get_table_value_from_record"; F=ctx.need(P.fn(fn),"%s not found"%fn); ctx.fns([fn])
    for typ,w,nm in TYPES:
        class E(Codec):
            def keepmem(s,X,st,k,v): return k[0]==("a",3)
            def store(s,X,st,I,A,v):
                if A==(("a",3),()): st.rs=frozenset([("enc",s.linear(X,st,I.a[0]),v),("sym",v)])
            def ret(s,X,st,I,v):
                f=X.value(st,v)
                if not(f[0]<=0<=f[1] and 0 not in f[2]): return
                s.hits.append((I,next((x[1] for x in st.rs or () if x[0]=="enc"),None),s.bounded(X,st)))
            def bounded(s,X,st):
                """the encoded value is known to fit in 16 bits"""
                for x in st.rs or ():
                    if x[0]!="enc": continue
                    v=x[2]; f=X.fact(st,v)
                    if f[0]>=0 and f[1]<=0xffff: return True
                    for k,d in st.defs.items():
                        if d[0]=="hi16" and d[1]==v:
                            g=X.fact(st,k)
                            if g[0]==g[1]==0: return True
                    # or the number itself was
                    return x[1] is not None and s.number(X,st,x[1])
                return False
            def number(s,X,st,enc):
                for k,f in st.facts.items():
                    if k[0]=="i" and X.F.insts[k[1]].op=="call" and s.P.callname(X.F,X.F.insts[k[1]]) in s.getint and f[0]>=-0x8000 and f[1]<=0x7fff: return True
                return False
            def icmp(s,X,st,I,a,b):
                D=X.F.insts.get(a[1]) if a[0]=="i" else None
                if D is not None and D.op in("and","lshr") and D.a[1][0]=="c" and (D.op=="and" and D.a[1][1]&0xffffffff==0xffff0000 or D.op=="lshr" and D.a[1][1]==16):
                    v=X.sym(st,D.a[0]); st.defs[a]=("hi16",v); st.rs=(st.rs or frozenset())|{("keep",a)}
        R=E(ctx,P,typ,w,()); Explorer(P,F,R).run()
        ctx.need(R.hits,"no way through %s for a %s column"%(fn,nm))
        for I,enc,bounded in R.hits:
            ctx.ok("%s: %s column is encoded"%(P.loc(I),nm)); ctx.count("sinks")
            off=0x8000 if w==2 else 0x80000000
            if enc is None or enc[0]!="field" or (enc[1]-off)&0xffffffff: ctx.find("%s:%d"%(fn,w),P.loc(I),"a number for a %d-byte column is not encoded as readers decode it"%w)
            elif w==2 and not bounded: ctx.find("%s:range"%fn,P.loc(I),"a number that does not fit in a 2-byte column is accepted: another one is stored")
    # key values of a record compared with cells
    fn="msi_record_to_row"; F=ctx.need(P.fn(fn),"%s not found"%fn); ctx.fns([fn])
    for typ,w,nm in TYPES:
        if not typ&KEY: continue
        class K_(Codec):
            def keepmem(s,X,st,k,v): return any(x[0] in("due","num") and x[1]==v for x in st.rs or ())
            def call(s,X,st,I,n,names,args,ret):
                r=Codec.call(s,X,st,I,n,names,args,ret)
                if n in s.getint:
                    s.flush(X,st); st.rs=frozenset([("due",ret,I.id)])
                    if not X.constrain(st,ret,"ne",-0x80000000): return []
                return r
            def store(s,X,st,I,A,v):
                l=s.linear(X,st,I.a[0])
                if l[0]=="field": st.rs=frozenset([("stored",l,I.id)]+[("num",x[1]) for x in st.rs or () if x[0] in("due","num")])
            def flush(s,X,st):
                for x in st.rs or ():
                    if x[0]=="stored": s.hits.append((X.F.insts[x[2]],x[1][0],x[1][1],None))
                    if x[0]=="due": s.hits.append((X.F.insts[x[2]],"unstored",0,None))
                st.rs=None
            def ret(s,X,st,I,v): s.flush(X,st)
        R=K_(ctx,P,typ,w,()); Explorer(P,F,R).run()
        ctx.need(R.hits,"no key is encoded in %s for a %s column"%(fn,nm))
        off=0x8000 if w==2 else 0x80000000
        for I,src,k,_ in R.hits:
            ctx.ok("%s: %s is encoded"%(P.loc(I),nm)); ctx.count("sinks")
            if src!="field" or (k-off)&0xffffffff: ctx.find("%s:%d"%(fn,w),P.loc(I),"the key of a record is not encoded as the cells it is compared with")
# ------------------------------------------------------------------ width
def widths(ctx,P):
    fn="bytes_per_column"; F=ctx.need(P.fn(fn),"%s not found"%fn); ctx.fns([fn])
    for typ,want,nm in((VALID|BIN,2,"stream"),(VALID|BIN|NUL,2,"nullable stream"),(VALID|STR|255,"str","CHAR(255)"),(VALID|STR|0x400,"str","LONGCHAR"),(VALID|STR|KEY|72,"str","key CHAR(72)"),(VALID|2,2,"SHORT"),(VALID|4|KEY,4,"LONG key"),(VALID|4,4,"LONG"),(VALID|2|NUL,2,"nullable SHORT")):
        class R(Rule):
            def load(s,X,st,I,A,v,fresh):
                lf=lastf(A)
                if lf and lf[1]=="type" and fresh: st.mem[A]=st.env[I.id]=("c",typ)
            def ret(s,X,st,I,v): out.append((I,v,X.value(st,v)))
        out=[]; Explorer(P,F,R()).run(); ctx.need(out,"no way through %s"%fn); ctx.ok("width of %s"%nm); ctx.count("sinks")
        for I,v,f in out:
            good=v==("a",2) if want=="str" else f[0]==f[1]==want
            if not good: ctx.find("%s:%s"%(fn,nm),P.loc(I),"the width of a %s column is not %s"%(nm,"that of a string reference" if want=="str" else want))
# ------------------------------------------------------------------ byte order
def geps(F,o):
    """(base operand, plain index operands, last to first) of an address"""
    idx=[]
    while o[0]=="i" and F.insts[o[1]].op=="getelementptr":
        G=F.insts[o[1]]
        if any(x[0]=="f" for x in G.p): break
        idx+=[x[2] for x in reversed(G.p)]
        o=G.a[0]
    return o,idx
def offset(A,F,o):
    b,idx=geps(F,o); p=Poly()
    for x in idx: p=p+A(x)
    return b,p
def isbyte(I): return I.op=="load" and I.ty=="i8"
def shifted(A,F,uses,I):
    """polynomials of the shift a loaded byte is used with"""
    out=[]; w=[I]; seen=set()
    while w:
        J=w.pop()
        if J.id in seen: continue
        seen.add(J.id)
        for U in uses.get(("i",J.id),()):
            if U.op in CASTS: w.append(U)
            elif U.op=="shl" and U.a[0]==("i",J.id): out.append((U,A(U.a[1])))
            elif U.op=="mul": out.append((U,None))
            elif U.op in("add","or","phi","ret"): out.append((U,Poly()))
    return out
def usemap(P,F):
    u={}
    for I in P.insts(F):
        for o in operands(I): u.setdefault(o,[]).append(I)
    return u
def bounded(A,F,p,bound):
    """the loop of counter p is left when it reaches bound, and only then"""
    I=F.insts[p[1]]; body,_=A.loops()[I.blk]; n=0
    for b in body:
        T=F.blocks[b].term
        if all(s in body for s in F.blocks[b].succ): continue
        if T.op!="br" or not T.a or T.a[0][0]!="i": return False
        C=F.insts[T.a[0][1]]
        if C.op!="icmp": return False
        if A(C.a[0])==Poly({(p,):1}) and A(C.a[1])==bound and C.pred in("ult","slt","ne") and T.succ[0] in body: n+=1
        elif A(C.a[1])==Poly({(p,):1}) and A(C.a[0])==bound and C.pred in("ugt","sgt","ne") and T.succ[0] in body: n+=1
        else: return False
    return n==1
def byteorder(ctx,P):
    for fn,base,pos,cnt,row in(("read_table_int","cells",2,3,1),("read_raw_int",0,1,2,None)):
        F=ctx.need(P.fn(fn),"%s not found"%fn); A=Affine(P,F); U=usemap(P,F); n=0; ctx.fns([fn])
        for I in P.insts(F):
            if not isbyte(I): continue
            b,off=offset(A,F,I.a[0]); n+=1; ctx.ok("%s: byte of a cell"%P.loc(I)); ctx.count("sinks")
            if base==0: good=b==("a",0)
            else:
                good=False
                if b[0]=="i" and F.insts[b[1]].op=="load":
                    bb,r=offset(A,F,F.insts[b[1]].a[0]); good=bb==("a",0) and r==Poly({(("a",row),):1})
            if not good: ctx.find("%s:base"%fn,P.loc(I),"the bytes of a cell are not taken from its own row"); continue
            x=off-Poly({(("a",pos),):1})
            sh=shifted(A,F,U,I)
            if not sh or any(k is None or k!=x.scale(8) for _,k in sh): ctx.find("%s:order"%fn,P.loc(I),"the bytes of a cell are not assembled lowest first from its position"); continue
            i=A.single(x)
            if i is None or not A.counter(i) or not bounded(A,F,i,Poly({(("a",cnt),):1})): 
                if x.const() is None: ctx.find("%s:all"%fn,P.loc(I),"not exactly the bytes of the cell are read")
        ctx.need(n,"no bytes are read in %s"%fn)
    fn="table_view_set_int"; F=ctx.need(P.fn(fn),"%s not found"%fn); A=Affine(P,F); n=0; ctx.fns([fn])
    for I in P.insts(F):
        if I.op!="store" or F.insts.get(I.a[0][1] if I.a[0][0]=="i" else None) is None or F.insts[I.a[0][1]].ty!="i8": continue
        n+=1; ctx.ok("%s: byte of a cell"%P.loc(I)); ctx.count("sinks")
        b,off=offset(A,F,I.a[1])
        v=skipcast(F,I.a[0]); D=F.insts[v[1]] if v[0]=="i" else None
        if D is not None and D.op=="and" and D.a[1]==("c",255): v=skipcast(F,D.a[0]); D=F.insts[v[1]] if v[0]=="i" else None
        sh=Poly(); src=v
        if D is not None and D.op in("lshr","ashr"): sh=A(D.a[1]); src=skipcast(F,D.a[0])
        if src!=("a",3): ctx.find("%s:value"%fn,P.loc(I),"something else than the value is stored in the cell"); continue
        good=False
        if b[0]=="i" and F.insts[b[1]].op=="load":
            bb,r=offset(A,F,F.insts[b[1]].a[0]); good=r==Poly({(("a",1),):1}) and (loadfield(P,F,bb) or (0,0))[1]=="data"
        if not good: ctx.find("%s:row"%fn,P.loc(I),"a cell is stored in another row"); continue
        # offset: field of the column + i
        flds=[k for k in off if any(x[0]=="fld" and x[2]=="offset" for x in k)]
        x=off-Poly({flds[0]:off[flds[0]]}) if flds else off
        want=frozenset((Poly({(("a",2),):1})-K(1)).items())
        if len(flds)!=1 or off[flds[0]]!=1 or flds[0][0][3]!=want or x.scale(8)!=sh: ctx.find("%s:order"%fn,P.loc(I),"a cell is not stored lowest byte first at the position of its column"); continue
        i=A.single(x)
        W=[J for J in P.calls(F) if P.callname(F,J)=="bytes_per_column"]
        ws=[Poly({(("i",J.id),):1}) for J in W if J.a[2]==("c",3)]
        if x.const() is None and (i is None or not A.counter(i) or not any(bounded(A,F,i,w) for w in ws)): ctx.find("%s:all"%fn,P.loc(I),"not exactly the bytes of the cell are stored")
    ctx.need(n,"no bytes are stored in %s"%fn)
    fn="table_view_fetch_int"; F=ctx.need(P.fn(fn),"%s not found"%fn); A=Affine(P,F); n=0; ctx.fns([fn])
    for I in P.calls(F):
        if P.callname(F,I)!="read_table_int": continue
        n+=1; ctx.ok("%s: cell is read"%P.loc(I)); ctx.count("sinks")
        off=A(I.a[2]); at=A.single(off); w=skipcast(F,I.a[3]); W=F.insts[w[1]] if w[0]=="i" else None
        want=frozenset((Poly({(("a",2),):1})-K(1)).items())
        if A(I.a[1])!=Poly({(("a",1),):1}) or at is None or at[0]!="fld" or at[2]!="offset" or at[3]!=want: ctx.find("%s:place"%fn,P.loc(I),"a cell is not read from the position of its row and column")
        elif W is None or W.op!="call" or P.callname(F,W)!="bytes_per_column" or W.a[2]!=("c",3) or A.index(W.a[1])!=want: ctx.find("%s:width"%fn,P.loc(I),"a cell is not read with the width of its column in memory")
    ctx.need(n,"no cell is read in %s"%fn)
# ------------------------------------------------------------------ layout of the stream
def width_of(P,F,A,atom):
    """('mem'|'file', index of the column) of a width"""
    if atom is None or atom[0]!="i": return None
    I=F.insts[atom[1]]
    if I.op!="call" or P.callname(F,I)!="bytes_per_column": return None
    w=I.a[2]
    if w==("c",3): k="mem"
    elif w[0]=="a": k="file"
    elif (loadfield(P,F,w) or (0,0))[1]=="bytes_per_strref": k="file"
    else: return None
    return k,A.index(I.a[1])
def accumulates(P,F,A,p,kind):
    """p sums the widths of the columns passed, from zero"""
    r=A.phi(p) if p[0]=="i" else None
    if not r or r[0]!={Poly()} or len(r[1])!=1: return None
    w=width_of(P,F,A,A.single(next(iter(r[1]))))
    if w is None or w[0]!=kind or w[1] is None: return None
    return w
def terms(poly): return [(k,v) for k,v in poly.items()]
def split(P,F,A,off,kind):
    """offset polynomial = accumulated width + rest"""
    for k,v in terms(off):
        if v==1 and len(k)==1 and k[0][0]=="i" and accumulates(P,F,A,k[0],kind):
            return k[0],off-Poly({k:1})
    return None,None
def layout(ctx,P,fn,save):
    F=ctx.need(P.fn(fn),"%s not found"%fn); A=Affine(P,F); n=0; ctx.fns([fn])
    def find(key,I,what): ctx.find("%s:%s"%(fn,key),P.loc(I),what)
    pairs=[]
    for I in P.insts(F):
        if I.op=="store" and I.a[0][0]=="i":
            L=F.insts[skipcast(F,I.a[0])[1]] if skipcast(F,I.a[0])[0]=="i" else None
            if L is not None and isbyte(L): pairs.append((I,I.a[1],L.a[0],None,L))
        if I.op=="call" and P.callname(F,I).startswith(("memcpy","llvm.memcpy","memmove","llvm.memmove")): pairs.append((I,I.a[0],I.a[1],I.a[2],I))
    rows=[]
    for I,dst,src,ln,L in pairs:
        mem,raw=(src,dst) if save else (dst,src)
        mb,moff=offset(A,F,mem); rb,roff=offset(A,F,raw)
        if not(mb[0]=="i" and F.insts[mb[1]].op=="load"): continue
        db,drow=offset(A,F,F.insts[mb[1]].a[0])
        if (loadfield(P,F,db) or (0,0))[1]!="data": continue
        n+=1; ctx.ok("%s: bytes between stream and cell"%P.loc(I)); ctx.count("sinks")
        om,k=split(P,F,A,moff,"mem")
        if om is None: find("mem",I,"a cell is not placed after the columns before it"); continue
        # raw: ofs*ROWS + row*n + k
        rest=roff-k; of=None
        for m,v in terms(rest):
            if v==1 and len(m)==2:
                for x,y in((0,1),(1,0)):
                    if m[x][0]=="i" and accumulates(P,F,A,m[x],"file"): of=m[x]; rowsatom=m[y]; rem=rest-Poly({m:1})
        if of is None: find("column",I,"a column of the stream does not begin after all rows of the columns before it"); continue
        wn=None
        for m,v in terms(rem):
            if v==1 and len(m)==2:
                for x,y in((0,1),(1,0)):
                    w=width_of(P,F,A,m[x])
                    if w and w[0]=="file": wn=(m[x],w); rowatom=m[y]; rem2=rem-Poly({m:1})
        if wn is None or len(rem2): find("row",I,"a cell is not placed after the cells of its column in the rows before it"); continue
        wm=accumulates(P,F,A,om,"mem"); wf=accumulates(P,F,A,of,"file")
        if not(wm[1]==wf[1]==wn[1][1]): find("columns",I,"the widths of different columns are mixed"); continue
        j=A.single(Poly(dict(wm[1])))
        if j is None or not A.counter(j): find("columns",I,"the columns are not taken one after another from the first"); continue
        # the counter of columns runs over all of them
        cc=[x for x in(Poly({(("fld","_LibmsiTable","col_count",None),):1}),)]
        if not any(bound_at(A,F,P,j,"col_count")): find("columns",I,"the columns are not taken up to the last"); continue
        if ln is None:
            i=A.single(k)
            if i is None or not A.counter(i): find("bytes",I,"the bytes of a cell are not taken one after another"); continue
            if not bytebound(A,F,P,i,wn[0],L): find("bytes",I,"more or fewer bytes than the width of the column are taken"); continue
        elif len(k) or A(ln)!=Poly({(wn[0],):1}): find("bytes",I,"more or fewer bytes than the width of the column are taken"); continue
        dr=A.single(drow)
        if dr is None or not A.counter(dr) or not bound_at(A,F,P,dr,"row_count"): find("rows",I,"the rows are not taken one after another up to the last"); continue
        rows.append((I,dr,rowatom,rowsatom))
        if not save:
            if rowatom!=dr: find("rows",I,"a row is not read from its own place in the stream")
            if not isfield(rowsatom,"row_count"): find("column",I,"a column of the stream does not begin after all rows of the columns before it")
    ctx.need(n,"no bytes are moved between stream and cells in %s"%fn)
    return F,A,rows
def isfield(a,f): return a[0]=="fld" and a[2]==f
def bound_at(A,F,P,p,field):
    """the loop of p runs while p < the field"""
    if p[0]!="i" or F.insts[p[1]].op!="phi": return False
    h=F.insts[p[1]].blk; out=[]
    for b in A.loops()[h][0]:
        T=F.blocks[b].term
        if T.op=="br" and T.a and T.a[0][0]=="i" and any(s not in A.loops()[h][0] for s in F.blocks[b].succ):
            C=F.insts[T.a[0][1]]
            if C.op!="icmp": continue
            for x,y,pr in((0,1,("ult","slt","ne")),(1,0,("ugt","sgt","ne"))):
                b_=A.single(A(C.a[y]))
                if A(C.a[x])==Poly({(p,):1}) and b_ and isfield(b_,field) and C.pred in pr and T.succ[0] in A.loops()[h][0]: out.append(1)
    return out
def bytebound(A,F,P,i,w,L):
    """at L the counter is below the width, and the loop does not stop before it"""
    edges=[]; stop=False; h=F.insts[i[1]].blk; body=A.loops()[h][0]
    for b in body:
        T=F.blocks[b].term
        if T.op!="br" or not T.a or T.a[0][0]!="i": continue
        C=F.insts[T.a[0][1]]
        if C.op!="icmp": continue
        x,y=A(C.a[0]),A(C.a[1])
        me=Poly({(i,):1}); ww=Poly({(w,):1})
        if x==me and C.pred in("ult","slt"): bound=y
        elif y==me and C.pred in("ugt","sgt"): bound=x
        else: continue
        if bound==ww: edges.append((b,T.succ[0]))
        if b==h or T.succ[1] not in body:
            ww2=width_of(P,F,A,A.single(bound))
            stop=stop or bound==ww or (ww2 is not None and ww2[0]=="mem")
    return bool(edges) and L.blk not in reach(F,h,cut_edges=set(edges)) and stop
def strings_extended(ctx,P,F):
    """bytes of a string id that the stream does not have are zero"""
    A=Affine(P,F)
    for I in P.insts(F):
        if I.op=="store" and I.a[0]==("c",0):
            b,off=offset(A,F,I.a[1])
            if b[0]=="i" and F.insts[b[1]].op=="load":
                om,k=split(P,F,A,off,"mem")
                if om is not None: return True
        if I.op=="store" and I.a[0][0]=="i" and F.insts[I.a[0][1]].ty=="ptr":
            b,off=offset(A,F,I.a[1])
            if (loadfield(P,F,b) or (0,0))[1]=="data":
                o=skipcast(F,I.a[0]); C=F.insts[o[1]] if o[0]=="i" else None
                if C is not None and C.op=="call" and P.callname(F,C) in("calloc","g_malloc0","msi_alloc_zero","g_malloc0_n"): return True
    return False
def persistent_edges(P,F,A,i):
    """edges taken when the flag of row i says persistent / not"""
    yes=set(); no=set()
    for b in F.reach:
        T=F.blocks[b].term
        if T.op!="br" or not T.a or T.a[0][0]!="i": continue
        neg=False; o=T.a[0]
        for _ in range(6):
            I=F.insts[o[1]] if o[0]=="i" else None
            if I is None: break
            if I.op in CASTS: o=I.a[0]; continue
            if I.op=="xor" and I.a[1][0]=="c": neg=not neg; o=I.a[0]; continue
            if I.op=="icmp" and I.a[1]==("c",0) and I.pred in("eq","ne"): neg^=I.pred=="eq"; o=I.a[0]; continue
            break
        I=F.insts[o[1]] if o[0]=="i" else None
        if I is not None and I.op=="and" and I.a[1] in(("c",1),("c",255)): I=F.insts[skipcast(F,I.a[0])[1]] if skipcast(F,I.a[0])[0]=="i" else None
        if I is None or I.op!="load": continue
        bb,off=offset(A,F,I.a[0])
        if (loadfield(P,F,bb) or (0,0))[1]!="data_persistent" or A.single(off)!=i: continue
        t,f=T.succ if not neg else T.succ[::-1]
        yes.add((b,t)); no.add((b,f))
    return yes,no
def saved_rows(ctx,P,F,A,rows):
    fn="save_table"
    def find(key,I,what): ctx.find("%s:%s"%(fn,key),P.loc(I),what)
    W=[I for I in P.calls(F) if P.callname(F,I)=="write_stream_data"]
    ctx.need(W,"the table is no longer written in %s"%fn)
    loops=A.loops()
    def conditional_counter(p,step,what,I0):
        """p counts the persistent rows"""
        if p[0]!="i" or F.insts[p[1]].op!="phi": find(what,I0,"%s is not counted row by row"%what); return
        H=F.insts[p[1]]; r=A.phi(p)
        if r is None: find(what,I0,"%s is not counted row by row"%what); return
        init,steps=r
        ctx.ok("%s: %s counts the saved rows"%(P.loc(H),what))
        body=loops[H.blk][0]
        # the row counter of the same loop
        cs=[("i",J.id) for J in F.blocks[H.blk].insts if J.phi is not None and A.counter(("i",J.id)) and bound_at(A,F,P,("i",J.id),"row_count")]
        if len(cs)<1: find(what,I0,"%s is not counted over all rows"%what); return
        yes,no=set(),set()
        for c in cs:
            y,n_=persistent_edges(P,F,A,c); yes|={e for e in y if e[0] in body}; no|={e for e in n_ if e[0] in body}
        if init!={Poly()} or not steps<={Poly(),step} or step not in steps: find(what,I0,"%s does not count the saved rows from zero"%what); return
        if not yes: find(what,I0,"%s counts rows whether they are saved or not"%what); return
        # where the increments are
        incs={J.blk for J in P.insts(F) if J.op=="add" and J.blk in body and A(("i",J.id))-Poly({(p,):1})==step and feeds(A,F,("i",J.id),p,body,H.blk)}
        for b in incs:
            if b in reach(F,H.blk,cut_edges=yes): find(what,I0,"%s also counts a row that is not saved"%what)
        for e in yes:
            # from a saved row the next one is not reached without counting
            if H.blk in reach(F,e[1],cut_blocks=incs) : find(what,I0,"%s misses a row that is saved"%what)
    def feeds(A,F,v,p,body,h): return any(v==w for pv,pb in F.insts[p[1]].phi if pb in body for w in A.merge(pv,body,h))
    for I,dr,rowatom,rowsatom in rows:
        yes,no=persistent_edges(P,F,A,dr)
        ctx.ok("%s: only saved rows"%P.loc(I))
        if not yes or not onlyvia(F,yes,I.blk): find("persistent",I,"a temporary row is saved"); continue
        h=F.insts[dr[1]].blk
        for b,t in no:
            ctx.ok("temporary row is skipped")
            if any(w.blk in reach(F,t,cut_blocks=(h,)) for w in W): find("rest",F.blocks[b].term,"the rows after a temporary one are not saved")
        for b,t in yes:
            ctx.ok("other row is saved")
            # all columns: the loop of columns cannot be bypassed
            cols=[F.insts[x[1]].blk for x in (colcounter(P,F,A),) if x]
            if cols and h in reach(F,t,cut_blocks=set(cols)): find("skip",F.blocks[b].term,"a row can be left out although it is persistent")
        if rowatom==dr: find("compact",I,"the saved rows do not follow each other in the stream: temporary rows leave holes"); 
        else: conditional_counter(rowatom,K(1),"the place of a row",I)
        conditional_counter(rowsatom,K(1),"the number of rows",I)
    # size written
    for w in W:
        ctx.ok("%s: size of the stream"%P.loc(w))
        sz=A(w.a[3]); a=A.single(sz)
        rs=[("i",J.id) for J in P.calls(F) if P.callname(F,J)=="msi_table_get_row_size"]
        ok=False
        for r in rs:
            if len(sz)==1:
                (m,v),=sz.items()
                if v==1 and len(m)==2 and r in m and rows and [x for x in m if x!=r]==[rows[0][3]]: ok=True
            if a and a[0]=="i" and F.insts[a[1]].op=="phi": conditional_counter(a,Poly({(r,):1}),"the size of the stream",w); ok=True
        if not ok: find("size",w,"the size of the stream is not that of the saved rows")
        for r in rs:
            c=F.insts[r[1]]
            if c.a[3]!=("a",2): find("rowsize",c,"the size of a row is not computed for the width of string references it is written with")
def colcounter(P,F,A):
    for I in P.insts(F):
        if I.op=="phi" and I.blk in A.loops() and bound_at(A,F,P,("i",I.id),"col_count") and A.counter(("i",I.id)): return("i",I.id)
def rowsize(ctx,P):
    fn="msi_table_get_row_size"; F=ctx.need(P.fn(fn),"%s not found"%fn); A=Affine(P,F); n=0; ctx.fns([fn])
    def ismem(w): return w is not None and w[0]=="mem"
    for b in F.reach:
        T=F.blocks[b].term
        if T.op!="ret": continue
        for v in A.leaves(T.a[0]):
            I=F.insts[v[1]] if v[0]=="i" else None
            if v==("c",0): continue
            n+=1; ctx.ok("%s: size of a row"%P.loc(T)); ctx.count("sinks")
            p=A(v); a=A.single(p)
            good=False
            if a and a[0]=="i" and F.insts[a[1]].op=="phi":
                r=A.phi(a)
                if r and r[0]=={Poly()} and len(r[1])==1:
                    w=A.single(next(iter(r[1]))); J=F.insts[w[1]] if w and w[0]=="i" else None
                    if J is not None and J.op=="call" and P.callname(F,J)=="bytes_per_column" and J.a[2]==("a",3):
                        i=A.index(J.a[1]); c=A.single(Poly(dict(i))) if i is not None else None
                        good=c is not None and A.counter(c) and bounded(A,F,c,Poly({(("a",2),):1}))
            else:
                fl=[k for k in p if len(k)==1 and k[0][0]=="fld" and k[0][2]=="offset"]; cw=[k for k in p if len(k)==1 and k[0][0]=="i"]
                if len(p)==2 and len(fl)==len(cw)==1:
                    J=F.insts[cw[0][0][1]]; last=frozenset((Poly({(("a",2),):1})-K(1)).items())
                    good=J.op=="call" and P.callname(F,J)=="bytes_per_column" and A.index(J.a[1])==last and fl[0][0][3]==last
            if not good: ctx.find("%s"%fn,P.loc(T),"the size of a row is not the sum of the widths of its columns")
    ctx.need(n,"no row size is computed in %s"%fn)
    fn="table_calc_column_offsets"; F=ctx.need(P.fn(fn),"%s not found"%fn); A=Affine(P,F); n=0; ctx.fns([fn])
    for I in P.insts(F):
        if I.op!="store" or (P.fieldkey(F,I.a[1]) or (0,0))[1]!="offset": continue
        n+=1; ctx.ok("%s: position of a column"%P.loc(I)); ctx.count("sinks")
        i=A.index(I.a[1]); v=A(I.a[0])
        if v==Poly(): continue
        a=A.single(v)
        if a and accumulates(P,F,A,a,"mem") and accumulates(P,F,A,a,"mem")[1]==i: continue
        prev=frozenset((Poly(dict(i or ()))-K(1)).items())
        fl=[k for k in v if len(k)==1 and k[0][0]=="fld" and k[0][2]=="offset"]; cw=[k for k in v if len(k)==1 and k[0][0]=="i"]
        good=False
        if len(v)==2 and len(fl)==len(cw)==1:
            w=width_of(P,F,A,cw[0][0]); good=w is not None and w==("mem",prev) and fl[0][0][3]==prev
        if not good: ctx.find(fn,P.loc(I),"a column is not placed right after the one before it")
    ctx.need(n,"no column offset is computed in %s"%fn)
class Trial:
    """the context of an argument that may turn out not to apply"""
    def __init__(s,ctx): s.ctx=ctx; s.found=[]
    def find(s,k,w,t): s.found.append((k,w,t))
    def need(s,v,t):
        if not v: raise NotThisForm(t)
        return v
    def __getattr__(s,n): return getattr(s.ctx,n)
class NotThisForm(Exception): pass
def either(ctx,algebra,interpret,what):
    """the algebraic argument, for tables of any size; where the code is not of a form it knows, the bits of tables of every kind"""
    t=Trial(ctx)
    try: algebra(t); known=not t.found
    except NotThisForm as e: known=False
    if known: return
    fs=interpret(ctx)
    ctx.ok("%s: interpreted"%what)
    for k,w,x in fs: ctx.find(k,w,x)
def run(ctx):
    P=ctx.prog("libmsi")
    ctx.rule("An encoder adds 0x8000 (2 bytes) or 0x80000000 (4 bytes) and refuses what does not fit, every decoder subtracts the same; byte i of a cell is bits 8i..8i+7 at its position plus i; in the stream byte k of row r of a column is at (widths of the columns before)*rows + r*width + k, in memory at (widths before) + k; exactly the rows marked persistent are written.")
    codecs(ctx,P); widths(ctx,P)
    def reading(c):
        F,A,rows=layout(c,P,"read_table_from_storage",False)
        c.ok("short string references are extended with zeros")
        if not strings_extended(c,P,F): c.find("read_table_from_storage:extend",F.file,"the high byte of a string reference that the stream does not have is not cleared")
    def saving(c):
        F,A,rows=layout(c,P,"save_table",True); saved_rows(c,P,F,A,rows)
    either(ctx,lambda c:byteorder(c,P),lambda c:cellsim.reader(c,P,"read_table_int",False)+cellsim.reader(c,P,"read_raw_int",True)+cellsim.setter(c,P)+cellsim.fetch(c,P),"the order of the bytes of a cell")
    either(ctx,lambda c:rowsize(c,P),lambda c:cellsim.rowsizes(c,P)+cellsim.offsets(c,P),"the layout of a row")
    either(ctx,reading,lambda c:cellsim.load(c,P),"reading a table")
    either(ctx,saving,lambda c:cellsim.save(c,P),"saving a table")
