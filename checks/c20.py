"""Stream names: bit-level abstract interpretation of one iteration of the encoder on every class of character (pair), and of
the decoder on exactly the bytes the encoder produces; constant propagation through the alphabet tables; typestate of the
table prefix at every use of the codec."""
from util import *
from bits import *
from cmodel import CModel
import bits
from loops import natural_loops
MINIMUM={"characters":190,"encoder cases":16,"decoder cases":12,"uses":10}
ALPHA="0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz._"
IN=("IN",0)
def b8(x): return x.b[:8] if isinstance(x,V) else None
def main_loop(ctx,F):
    L=natural_loops(F); ctx.need(L,"no loop in %s"%F.src)
    return max(L,key=lambda h:len(L[h][0])),L
def setup(ctx,P,F,args,calls):
    """the state in which the main loop is first entered: [(env, stores before it)]"""
    h,L=main_loop(ctx,F)
    R=Region(P,F,{},calls); env=dict(args)
    out=[o for o in R.run(0,env,stop=(h,)) if o[0]=="back" and o[1]==h]
    ctx.need(out,"the loop of %s is not entered"%F.src)
    res=[]
    body=L[h][0]
    idx=indexed(F,body)
    for _,_,_,e,w in out:
        cur=[]
        for I in F.blocks[h].insts:
            if I.phi is None: break
            v=e.get(I.id)
            if isinstance(v,tuple): cur.append(I.id)
            elif I.id in idx and isinstance(v,V) and v.const() is not None: cur.append(I.id)
            else: e[I.id]=top(R.width(I.ty)) if R.width(I.ty) else None
        res.append((e,w,cur))
    return h,res
def indexed(F,body):
    """values that end in the index of an address"""
    use=set(); st=[]
    for b in body:
        for I in F.blocks[b].insts:
            if I.op=="getelementptr": st+=[x[2][1] for x in I.p if x[0] in("*","[") and x[2][0]=="i"]
    while st:
        i=st.pop()
        if i in use: continue
        use.add(i); J=F.insts[i]
        if J.op in("zext","sext","trunc","add","sub","phi","freeze"): st+=[o[1] for o in operands(J) if o[0]=="i"]
    return use
def iterate(P,F,h,e,cur,mem,calls):
    """outcomes of one iteration: (kind, stored bytes by address, moved cursors, returned value)"""
    R=Region(P,F,mem,calls); out=[]
    for k,b,v,e2,w in R.run(h,e,stop=(h,)):
        if k=="back" and b!=h: continue
        mv=None
        if k=="back":
            mv={}
            for i in cur:
                x,y=e.get(i),e2.get(i)
                if isinstance(x,tuple) and isinstance(y,tuple) and x[0]==y[0]: mv[i]=y[1]-x[1]
                elif isinstance(x,V) and isinstance(y,V) and y.const() is not None: mv[i]=y.const()-x.const()
                else: mv[i]=None
        out.append((k,{a:(x,I) for a,x,I in w},mv,v))
    return out
def fmt(bs): return " ".join("?" if x is None else "".join(str(y) if y in(0,1) else "?" if y=="?" else ("~" if y[2] else "")+y[0]+"."+str(y[1])+"," for y in reversed(x)) for x in bs)
def cursors(e,cur,base):
    """cursor positions: ids of the cursors walking the object base"""
    return [i for i in cur if isinstance(e.get(i),tuple) and e[i][0]==base]
def judge(ctx,P,F,key,what,outs,e,cur,out0,want,adv,final=False,at=0,null=False):
    """every outcome of the iteration stores exactly `want` at the output position and moves on by adv"""
    done=0; where=P.loc(F.blocks[0].insts[0])
    ins=cursors(e,cur,"IN"); os=cursors(e,cur,out0)
    for k,w,mv,v in outs:
        loc=next((P.loc(I) for x,I in w.values() if I is not None),where)
        got=[w.get((out0,at+j),(None,None))[0] for j in range(len(want))]
        extra=[a for a in w if isinstance(a,tuple) and a[0]==out0 and not at<=a[1]<at+len(want)]
        if final:
            if k!="ret": ctx.find(key,loc,"%s: the terminator does not end the name"%what); continue
            if null and isinstance(v,tuple) and v[0]=="null": continue
            done+=1
            if v!=(out0,0) : ctx.find(key,loc,"%s: what is returned is not the start of the name"%what)
            if [b8(x) for x in got]!=[b8(x) for x in want]: ctx.find(key,loc,"%s: the result is not terminated"%what)
            continue
        if k=="ret":
            if not(null and isinstance(v,tuple) and v[0]=="null"): ctx.find(key,loc,"%s: the rest of the name is dropped"%what)
            continue
        done+=1
        if [b8(x) for x in got]!=[b8(x) for x in want]: ctx.find(key,loc,"%s: stored are the bytes %s, not %s"%(what,fmt(map(b8,got)),fmt(map(b8,want))))
        if extra: ctx.find(key,loc,"%s: a byte is stored outside of its place"%what)
        a,b=adv
        ia=[mv[i] for i in ins] or [mv[i] for i in cur if not isinstance(e.get(i),tuple)]
        ob=[mv[i] for i in os] or [mv[i] for i in cur if not isinstance(e.get(i),tuple)]
        if a not in ia: ctx.find(key,loc,"%s: reading goes on after %s bytes instead of %d"%(what,ia,a))
        if b not in ob: ctx.find(key,loc,"%s: writing goes on after %s bytes instead of %d"%(what,ob,b))
    if not done: ctx.find(key,where,"%s: cannot be handled"%what)
def chars():
    m=sym("a",7,8,0x2e,0x7a)
    return {"end":C(0,8),"mime":m,"plain":sym("a",7,8,1,0x7f),"high":V([("a",i,0) for i in range(7)]+[1])}
def rename(v,n): return V([(n,)+x[1:] if isinstance(x,tuple) else x for x in v.b],v.lo,v.hi)
def room(ctx,P,F,bi,pi):
    """the counter of the encoder lets every name through, and the buffer holds what is stored"""
    loc=P.loc(F.blocks[0].insts[0])
    for table in(0,1):
        for n in((0,1,2,3,5,64,1000) if not table else(None,)):
            size=[]; base={}
            def alloc(I,a): size.append(next((x.const() for x in a if isinstance(x,V)),None)); return base.setdefault("o",(("OUT",I.id),0))
            calls={"utf2mime":lambda I,a:top(32),"malloc":alloc,"g_malloc":alloc,"g_try_malloc":alloc,"g_malloc0":alloc,"strlen":lambda I,a:C(n,64) if n is not None else top(64)}
            h,L=main_loop(ctx,F); R=Region(P,F,{},calls)
            for k,b,_,e,w in R.run(0,{("a",bi):C(table,1),("a",pi):IN},stop=(h,)):
                if k!="back" or b!=h: continue
                idx=indexed(F,L[h][0]); cnt=[(I,e[I.id]) for I in F.blocks[h].insts if I.phi is not None and I.id not in idx and isinstance(e.get(I.id),V)]
                for I,v in cnt:
                    def after(x):
                        e2=dict(e); e2[I.id]=C(x,R.width(I.ty)); return iterate(P,F,h,e2,[I.id],{IN:C(0x41,8),("IN",1):C(0x42,8)},calls)
                    z,o=after(0),after(1)
                    null=lambda outs:bool(outs) and all(k=="ret" and isinstance(v,tuple) and v[0]=="null" for k,_,_,v in outs)
                    if not null(z) or null(o) or v.const() is None: continue
                    ctx.count("encoder cases"); ctx.ok("%s: room for %s characters"%(loc,"all" if not table else v.const()))
                    if any(mv is not None and mv.get(I.id) not in(-1,None,(1<<R.width(I.ty))-1) for _,_,mv,_ in after(5)): ctx.find("room:step",loc,"the counter of characters left does not go down by one")
                    if not table and v.const()<n+1: ctx.find("room:%d"%table,loc,"a name of %d characters has room for %d with its terminator only"%(n,v.const()))
                    need=(3+3*v.const()) if table else 2*n+2   # a character of three bytes is a pair or followed by one of a byte
                    if size and size[0] is not None and size[0]<need: ctx.find("size:%d"%table,loc,"the buffer for a name of %s characters has %d bytes; up to %d are stored"%(n if n is not None else v.const(),size[0],need))
def alphabet(ctx,P):
    U=ctx.need(P.fn("utf2mime"),"utf2mime not found"); M=ctx.need(P.fn("mime2utf"),"mime2utf not found"); ctx.fns([U.src,M.src])
    def value(F,c,w):
        CM=CModel(P); rs={v.const() if isinstance(v,V) else None for kd,b,v,e,m in [(o[0],o[1],V(o[2].b[:w]) if isinstance(o[2],V) else None,o[3],o[4]) for o in Region(P,F,{},CM.calls,20000,CM.loads).run(0,{("a",0):C(c)})]}
        return rs.pop() if len(rs)==1 else None
    for c in range(0,128):
        r=value(U,c,32); w=ALPHA.find(chr(c)) if c else -1
        ctx.count("characters")
        if r!=w&0xffffffff: ctx.find("alphabet:%02x"%c,P.loc(U.blocks[0].insts[0]),"the character %r is given the code %s instead of %d"%(chr(c),r,w))
    for k in range(64):
        r=value(M,k,8); ctx.count("characters")
        if r!=ord(ALPHA[k]): ctx.find("alphabet:back:%d"%k,P.loc(M.blocks[0].insts[0]),"the code %d is read back as %s instead of %r"%(k,r,ALPHA[k]))
def encoder(ctx,P):
    F=ctx.need(P.fn("encode_streamname"),"encode_streamname not found"); ctx.fns([F.src])
    bi=next((i for i,t in enumerate(F.params) if t!="ptr"),None); pi=next((i for i,t in enumerate(F.params) if t=="ptr"),None)
    ctx.need(bi is not None and pi is not None,"parameters of encode_streamname")
    room(ctx,P,F,bi,pi)
    for table in(0,1):
        base={}
        def alloc(I,a): return base.setdefault("o",(("OUT",I.id),0))
        cls={"v":None}
        def mime(I,a):
            for n in("a","b"):
                x=cls["v"].get(n)
                if x is None: continue
                k,v=x
                if isinstance(a[0],V) and a[0].b[:8]==v.b[:8]:
                    if k!="mime": return C(-1)
                    return V([("m"+n,i,0) if i<5 else (cls["v"]["hi"] if n=="b" and i==5 else ("m"+n,5,0) if i==5 else 0) for i in range(32)])
            return top(32)
        calls={"utf2mime":mime,"malloc":alloc,"g_malloc":alloc,"g_try_malloc":alloc,"g_malloc0":alloc,"strlen":lambda I,a:top(64)}
        h,ents=setup(ctx,P,F,{("a",bi):C(table,1),("a",pi):IN},calls)
        for e,w,cur in ents:
            out0=base["o"][0]; pre={a[1]:x for a,x,_ in w if isinstance(a,tuple) and a[0]==out0}
            want={0:0xe4,1:0xa1,2:0x80} if table else {}
            ctx.count("encoder cases"); loc=P.loc(w[0][2]) if w else P.loc(F.blocks[0].insts[0])
            at=len(want)
            if {k:(x.const() if isinstance(x,V) else None) for k,x in pre.items()}!=want:
                ctx.find("prefix:%d"%table,loc,"the name of a %s starts with %s"%("table" if table else "stream",[hex(x.const() or 0) for k,x in sorted(pre.items()) if isinstance(x,V)]))
            os=cursors(e,cur,out0)
            if os and at not in [e[i][1] for i in os]: ctx.find("prefix:%d:at"%table,loc,"the name does not follow the prefix")
            CH=chars()
            for ka,va in CH.items():
                for kb,vb in CH.items():
                    if ka!="mime" and kb!="end": continue
                    for hi in((0,1) if kb=="mime" and ka=="mime" else (0,)):
                        va_,vb_=va,rename(vb,"b"); cls["v"]={"a":(ka,va_),"b":(kb,vb_),"hi":hi}
                        if kb=="end" and ka!="mime": cls["v"].pop("b")
                        mem={IN:va_}
                        if ka=="mime": mem[("IN",1)]=vb_
                        outs=iterate(P,F,h,e,cur,mem,calls); ctx.count("encoder cases")
                        m0=V([("ma",i,0) for i in range(6)]+[0,1])
                        m1=[("mb",i,0) for i in range(5)]
                        what="encoding a %s character followed by a %s one (%d)"%(ka,kb,hi); key="encode:%d:%s:%s"%(table,ka,kb)
                        a=dict(e=e,cur=cur,out0=out0,at=at,null=True)
                        if ka=="end": judge(ctx,P,F,key,"encoding the end of a name",outs,want=[C(0,8)],adv=None,final=True,**a)
                        elif ka!="mime": judge(ctx,P,F,key,"encoding a %s byte"%ka,outs,want=[va_],adv=(1,1),**a)
                        elif kb=="mime": judge(ctx,P,F,key,what,outs,want=[C(0xe3+hi,8),V(m1+[1-hi,0,1]),m0],adv=(2,3),**a)
                        else: judge(ctx,P,F,key,what,outs,want=[C(0xe4,8),C(0xa0,8),m0],adv=(1,3),**a)
def decoder(ctx,P):
    F=ctx.need(P.fn("decode_streamname"),"decode_streamname not found"); ctx.fns([F.src])
    base={}; hi={"v":None}
    def alloc(I,a): return base.setdefault("o",(("OUT",I.id),0))
    def back(I,a):
        if isinstance(a[0],V):
            for n in("ma","mb"):
                b=[(n,i,0) for i in range(5)]+[hi["v"] if n=="mb" else ("ma",5,0)]+[0]*26
                if list(a[0].b[:32])==b: return V([("u"+n,i,0) for i in range(7)]+[0]*25)
        return top(32)
    calls={"mime2utf":back,"malloc":alloc,"g_malloc":alloc,"g_malloc0":alloc,"g_try_malloc":alloc,"strlen":lambda I,a:top(64)}
    h,ents=setup(ctx,P,F,{("a",0):IN},calls)
    um=lambda n:V([("u"+n,i,0) for i in range(7)]+[0]); m0=V([("ma",i,0) for i in range(6)]+[0,1])
    cont=lambda n,lo=0x80,hi=0xbf:V([(n,i,0) for i in range(6)]+[0,1],lo,hi)
    def rng(n,lo,hi):
        x=lo^hi; k=x.bit_length(); return V([(n,i,0) if i<k else lo>>i&1 for i in range(8)],lo,hi)
    for e,w,cur in ents:
        out0=base["o"][0]; a=dict(e=e,cur=cur,out0=out0,at=0)
        def go(key,what,bytes_,want,adv,final=False):
            ctx.count("decoder cases"); mem={("IN",j):x for j,x in enumerate(bytes_)}
            outs=iterate(P,F,h,e,cur,mem,calls)
            if adv and adv[0]>1 and adv[0]==adv[1] and not final:
                # copying a sequence byte by byte is as good, if the bytes inside of it are copied too
                ia=cursors(e,cur,"IN")
                if outs and all(k=="back" and (not ia or all(mv[i]==1 for i in ia)) for k,_,mv,_ in outs):
                    judge(ctx,P,F,key,what,outs,want=want[:1],adv=(1,1),**a)
                    o2=iterate(P,F,h,e,cur,{IN:cont("x")},calls); judge(ctx,P,F,key,"decoding the inside of a character",o2,want=[cont("x")],adv=(1,1),**a); return
            judge(ctx,P,F,key,what,outs,want=want,adv=adv,final=final,**a)
        for b in(0,1):
            hi["v"]=b
            go("decode:pair:%d"%b,"decoding a pair",[C(0xe3+b,8),V([("mb",i,0) for i in range(5)]+[1-b,0,1]),m0],[um("ma"),um("mb")],(3,2))
        go("decode:single","decoding a single character",[C(0xe4,8),C(0xa0,8),m0],[um("ma")],(3,1))
        go("decode:end","decoding the end of a name",[C(0,8)],[C(0,8)],None,True)
        go("decode:ascii","decoding a plain byte",[rng("p",1,0x7f)],[rng("p",1,0x7f)],(1,1))
        go("decode:2","decoding a two-byte character",[rng("p",0xc2,0xdf),cont("q")],[rng("p",0xc2,0xdf),cont("q")],(2,2))
        for lo,hi_,c in((0xe0,0xe2,cont("q")),(0xe3,0xe3,rng("q",0x80,0x9f)),(0xe4,0xe4,rng("q",0xa1,0xbf)),(0xe5,0xef,cont("q"))):
            x=[rng("p",lo,hi_) if lo!=hi_ else C(lo,8),c,cont("r")]; go("decode:3:%02x"%lo,"decoding a three-byte character from %02x"%lo,x,x,(3,3))
        x=[rng("p",0xf0,0xf4),cont("q"),cont("r"),cont("s")]; go("decode:4","decoding a four-byte character",x,x,(4,4))
        x=[C(0xe4,8),C(0xa1,8),C(0x80,8)]; go("decode:prefix","decoding the table prefix",x,x,(3,3))
class Use(Rule):
    """is the table prefix established for the name that is decoded?"""
    def __init__(s,ctx,P,F): s.ctx=ctx;s.P=P;s.F=F;s.seen={}
    def off(s,X,o,st=None):
        """(base operand, constant offset) of a byte address"""
        k=0; F=s.F
        while o[0]=="i":
            I=F.insts[o[1]]
            if I.op=="getelementptr" and len(I.p)==1 and I.p[0][0]=="*" and I.p[0][2][0]=="c": k+=I.p[0][2][1]; o=I.a[0]
            elif st is not None and I.op=="getelementptr" and len(I.p)==1 and I.p[0][0]=="*":
                f=s.at(X,st,I.p[0][2])
                if f is None: break
                k+=f; o=I.a[0]
            elif I.op in("bitcast","freeze"): o=I.a[0]
            else: break
        return o,k
    def load(s,X,st,I,A,v,fresh):
        if I.ty!="i8": return
        b,k=s.off(X,I.a[0])
        if 0<=k<3:
            st.rs=frozenset(x for x in st.rs if x[:2]!=(X.sym(st,b),k))|{(X.sym(st,b),k,v)}
    def call(s,X,st,I,n,names,args,ret):
        """the prefix compared as a whole"""
        if n not in("memcmp","bcmp","strncmp","g_str_has_prefix") or len(I.a)<2: return None
        for x,y in((0,1),(1,0)):
            raw=s.rawstr(I.a[y])
            if raw is None or raw[:3]!=b"\xe4\xa1\x80": continue
            if n=="g_str_has_prefix" and(y!=1 or len(raw)!=3): continue
            if n!="g_str_has_prefix" and I.a[2]!=("c",3): continue
            b,k=s.off(X,I.a[x],st)
            if k==0: st.rs=st.rs|{(X.sym(st,b),"pre" if n=="g_str_has_prefix" else "cmp",ret)}
        return None
    def at(s,X,st,o):
        """a constant index, through casts and negations"""
        while o[0]=="i" and s.F.insts[o[1]].op in("zext","sext","trunc"): o=s.F.insts[o[1]].a[0]
        if o[0]=="c": return o[1]
        if o[0]=="i" and s.F.insts[o[1]].op=="xor" and s.F.insts[o[1]].a[1][0]=="c":
            v=s.at(X,st,s.F.insts[o[1]].a[0]); return None if v is None else v^(s.F.insts[o[1]].a[1][1]&1)
        f=X.value(st,X.sym(st,o)); return f[0] if f[0]==f[1] else None
    def rawstr(s,o):
        t=s.P.cstr(o)
        if not isinstance(t,str): return None
        try: return t.encode("latin-1")
        except UnicodeEncodeError: return t.encode("utf-8","surrogateescape")
    def precall(s,X,st,I,n,names,args):
        if n!="decode_streamname": return
        b,k=s.off(X,I.a[0]); b=X.sym(st,b)
        if b[0]=="i" and s.F.insts[b[1]].op=="getelementptr": b2,k2=s.off(X,b); b,k=X.sym(st,b2),k+k2
        got={}
        for x,j,v in st.rs:
            if x!=b: continue
            f=X.value(st,v)
            if j=="cmp" and f[0]==f[1]==0 or j=="pre" and (f[0]>0 or 0 in f[2]): got={0:0xe4,1:0xa1,2:0x80}; break
            if isinstance(j,int) and f[0]==f[1]: got[j]=f[0]&0xff
        s.seen.setdefault(I.id,set()).add((got=={0:0xe4,1:0xa1,2:0x80},k))
def uses(ctx,P):
    tab={"read_stream_data","write_stream_data"}
    for F,I,n in allcalls(P,{"encode_streamname"}):
        ctx.count("uses"); ctx.fns([F.src]); a=[o for o in I.a if o[0]=="c" or o[0]=="i" and F.insts[o[1]].ty in("i1","i8")]
        v=a[0][1]&1 if a and a[0][0]=="c" else None
        if v is None: ctx.find("flag:%s"%F.src,P.loc(I),"whether the name is one of a table is not fixed here"); continue
        ctx.ok(P.loc(I))
        if bool(v)!=(F.src in tab): ctx.find("flag:%s"%F.src,P.loc(I),"a %s is named like a %s here"%(("table","stream") if F.src in tab else ("stream","table")))
    consts={}
    for F,I,n in allcalls(P,set(P.fns)):
        for j,o in enumerate(I.a):
            if n in P.fns and j<len(P.fns[n].params) and P.fns[n].params[j] in("i1","i8"): consts.setdefault((n,j),set()).add(o[1] if o[0]=="c" else None)
    guarded=0; bad=[False]
    for F in P.fns.values():
        if not any(P.callname(F,I)=="decode_streamname" for I in P.calls(F)): continue
        ctx.fns([F.src]); R=Use(ctx,P,F); facts={}
        for j in range(len(F.params)):
            c=consts.get((F.name,j))
            if c and len(c)==1 and None not in c: v=next(iter(c)); facts[("a",j)]=(v,v,frozenset())
        X=Explorer(P,F,R); X.run(frozenset(),facts)
        for i,ss in R.seen.items():
            I=F.insts[i]; ctx.count("uses"); ctx.ok(P.loc(I))
            for pre,k in ss:
                guarded+=pre; bad[0]|=pre!=(k==3)
                if pre and k!=3: ctx.find("strip:%s"%F.src,P.loc(I),"the name of a table's stream is decoded from byte %d, not after its prefix of 3 bytes"%k)
                if not pre and k!=0: ctx.find("strip:%s"%F.src,P.loc(I),"the name is decoded from byte %d although nothing says it has the prefix of a table"%k)
            # the decoded name is used whole
            st=[i]; sn=set()
            for J in P.insts(F):
                if J.op=="getelementptr" and any(o==("i",i) for o in origin(P,F,J.a[0])) and J.p[0][2][0]=="c" and J.p[0][2][1]:
                    ctx.find("whole:%s"%F.src,P.loc(J),"the decoded name is used from byte %d on"%J.p[0][2][1])
    ctx.need(guarded>=2 or bad[0],"the table prefix is recognised in %d places only"%guarded)
def run(ctx):
    P=ctx.prog("libmsi")
    alphabet(ctx,P); encoder(ctx,P); decoder(ctx,P); uses(ctx,P)
    ctx.rule("Per class of character (pair), the bits stored by one step of the encoder and the distance moved are the ones of the format; the decoder, given exactly those bits, stores the characters back and moves over exactly those bytes; the alphabet is the fixed one in both directions; the table prefix is added for table data only and removed as a whole where it was recognised.")
