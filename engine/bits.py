"""Bit-level abstract interpretation of an acyclic region (one iteration of a loop, or a whole straight function).
A value is a vector of bits, each 0, 1, unknown or a (possibly negated) bit of a named symbol; or an address
(object, constant offset).  Undecidable branches take both ways."""
import re
from prog import *
W=32
class V:
    """bits + interval"""
    def __init__(s,bits,lo=None,hi=None):
        s.b=tuple(bits)
        l,h=bounds(s.b); s.lo=l if lo is None else max(lo,l); s.hi=h if hi is None else min(hi,h)
    def __eq__(s,o): return isinstance(o,V) and s.b==o.b and (s.lo,s.hi)==(o.lo,o.hi)
    def __hash__(s): return hash((s.b,s.lo,s.hi))
    def const(s): return s.lo if s.lo==s.hi else None
    def signed(s,w):
        """signed range when read as w bits"""
        m=s.b[w-1]
        if m==0: return s.lo,s.hi
        if m==1: return s.lo-(1<<w),s.hi-(1<<w)
        return -(1<<(w-1)),(1<<(w-1))-1
def root(p):
    """the object an address belongs to"""
    while isinstance(p,tuple) and len(p)==2 and isinstance(p[0],tuple) and len(p[0])>=3 and p[0][1] in("f","at"): p=p[0][0]
    return p[0] if isinstance(p,tuple) else None
def bounds(b):
    lo=sum(1<<i for i,x in enumerate(b) if x==1); hi=sum(1<<i for i,x in enumerate(b) if x!=0)
    return lo,hi
def C(v,w=W): v&=(1<<w)-1; return V([(v>>i)&1 for i in range(w)])
def sym(name,n,w=W,lo=None,hi=None): return V([(name,i,0) if i<n else 0 for i in range(w)],lo,hi)
def top(w): return V(["?"]*w)
def bnot(x): return 1-x if x in(0,1) else ("?" if x=="?" else (x[0],x[1],1-x[2]))
def band(x,y):
    if x==0 or y==0: return 0
    if x==1: return y
    if y==1: return x
    if x==y and x!="?": return x
    return "?"
def bor(x,y): return bnot(band(bnot(x),bnot(y)))
def bxor(x,y):
    if x==0: return y
    if y==0: return x
    if x==1: return bnot(y)
    if y==1: return bnot(x)
    if x!="?" and x==y: return 0
    if x!="?" and y!="?" and x==bnot(y): return 1
    return "?"
def add(a,b,w,c=0):
    out=[]; c0=c
    for x,y in zip(a.b,b.b):
        t=bxor(bxor(x,y),c); c=bor(band(x,y),band(c,bxor(x,y))); out.append(t)
    r=V(out)
    lo,hi=a.lo+b.lo+c0,a.hi+b.hi+c0
    if c==0 and hi<(1<<w): r=V(out,lo,hi)
    return r
class Region:
    def __init__(s,P,F,mem,calls=None,limit=4000,loads=None,inline=(),tag=None,flat=False):
        s.flat=flat                     # addresses within objects are plain byte offsets
        s.P=P;s.F=F;s.mem0=mem;s.calls=calls or {};s.out=[];s.limit=limit;s.n=0;s.loads=loads
        s.inline=inline; s.tag=tag      # functions interpreted where they are called; the call this function was entered from
    def width(s,ty): return {"i1":1,"i8":8,"i16":16,"i32":32,"i64":64}.get(ty)
    def val(s,env,o,w=None):
        if o[0]=="c" and isinstance(o[1],int): return C(o[1],w or 64)
        if o[0]=="n": return ("null",0)
        if o[0]=="i": return env.get(o[1])
        if o[0]=="a": return env.get(o)
        if o[0]=="g": return (o,0)
        return None
    def run(s,start,env,prev=None,stop=(),w=()):
        """results: (kind,'ret'|block, value, env, writes)"""
        st=[(start,prev,dict(env),dict(s.mem0),list(w))]
        while st:
            b,pv,e,m,w=st.pop()
            s.n+=1
            if s.n>s.limit: raise Exception("region too large")
            ph={}
            if pv is not None:
                for I in s.F.blocks[b].insts:
                    if I.phi is None: break
                    for v,pb in I.phi:
                        if pb==pv: ph[I.id]=s.val(e,v,s.width(I.ty))
                e.update(ph)
                if b in stop: e["mem"]=m; s.out.append(("back",b,None,e,w)); continue
            for nb,e2,m2,w2,fin in s.block(b,e,m,w):
                if fin is not None: e2["mem"]=m2; s.out.append(("ret",b,fin[0],e2,w2))
                else: st.append((nb,b,e2,m2,w2))
        return s.out
    def block(s,b,e,m,w,first=0):
        for x,I in enumerate(s.F.blocks[b].insts):
            if I.phi is not None or x<first: continue
            op=I.op; n=s.width(I.ty)
            if op=="call" and s.inline:
                G=s.P.fns.get(I.callee[1]) if isinstance(I.callee,tuple) and I.callee[0]=="g" else None
                nm=s.P.callname(s.F,I); fn=I.callee[1] if G is not None else None
                if G is None and nm not in s.calls and isinstance(I.callee,tuple) and I.callee[0] in("i","a"):
                    # a call through a pointer to a known function
                    v=s.val(e,I.callee,64)
                    if isinstance(v,tuple) and len(v)==2 and v[1]==0 and isinstance(v[0],tuple) and v[0][:1]==("g",) and v[0][1] in s.inline and v[0][1] not in s.calls: G=s.P.fns.get(v[0][1]); fn=v[0][1]
                if G is not None and (nm in s.inline or fn in s.inline) and nm not in s.calls:
                    R=Region(s.P,G,m,s.calls,s.limit-s.n,s.loads,s.inline,(s.tag,I.id),s.flat); out=[]
                    for kd,_,v,e2,w2 in R.run(0,{("a",i):s.val(e,o,s.width(G.params[i]) if i<len(G.params) else None) for i,o in enumerate(I.a)},w=w):
                        e3=dict(e); e3[I.id]=v; out+=s.block(b,e3,e2["mem"],w2,x+1)
                    s.n+=R.n
                    return out
                h=s.calls.get(nm)
                if h is not None and getattr(h,"fork",False):
                    # a function that calls back: h gives the values it may return, each with memory and writes
                    out=[]
                    for v,m2,w2 in h(s,I,[s.val(e,o,64) for o in I.a],m,w):
                        e3=dict(e); e3[I.id]=v; out+=s.block(b,e3,m2,w2,x+1)
                    return out
            if op=="br":
                if not I.a: return [(s.F.blocks[b].succ[0],e,m,w,None)]
                c=s.val(e,I.a[0],1); k=c.const() if isinstance(c,V) else None
                if k is not None: return [(I.succ[0 if k else 1],e,m,w,None)]
                return [(t,dict(e),dict(m),list(w),None) for t in I.succ]
            if op=="switch":
                c=s.val(e,I.a[0],32); k=c.const() if isinstance(c,V) else None
                if k is not None:
                    for v,t in I.cases:
                        if (v-k)&0xffffffff==0: return [(t,e,m,w,None)]
                    return [(I.deflt,e,m,w,None)]
                def may(v):
                    if not isinstance(c,V): return True
                    n=len(c.b); v&=(1<<n)-1
                    return c.lo<=v<=c.hi and not any(isinstance(x,int) and x!=(v>>i&1) for i,x in enumerate(c.b))
                ts=list(dict.fromkeys([t for v,t in I.cases if may(v)]+[I.deflt]))
                return [(t,dict(e),dict(m),list(w),None) for t in ts]
            if op=="ret": return [(None,e,m,w,(s.val(e,I.a[0],32) if I.a else None,))]
            if op=="unreachable": return []
            e[I.id]=s.ev(I,e,m,w,n)
        return []
    def ev(s,I,e,m,w,n):
        op=I.op; a=[s.val(e,o,s.width(I.ot) if op in CASTW and getattr(I,"ot",None) else n or 64) for o in I.a]
        if op in("zext","sext","trunc"):
            x=a[0]
            if not isinstance(x,V): return top(n) if n else x
            b=list(x.b)
            if len(b)>n: return V(b[:n]) if x.hi>=(1<<n) else V(b[:n],x.lo,x.hi)
            f=0 if op=="zext" else b[-1]
            r=b+[f]*(n-len(b))
            return V(r,x.lo,x.hi) if f==0 else V(r)
        if op in("bitcast","freeze","inttoptr","ptrtoint"): return a[0]
        if op=="load":
            p=s.first(I,I.a[0],a[0],n)
            if isinstance(p,tuple) and p in m:
                v=m[p]
                if isinstance(v,V) and n and len(v.b)<n and isinstance(p[1],int) and len(v.b)%8==0:
                    v=s.pieces(m,p,n) or v
                if n is None and isinstance(v,V) and I.ty=="ptr" and v.const()==0: return ("null",0)      # bytes set to zero
                if isinstance(v,V) and n and len(v.b)!=n: v=V(v.b[:n]) if len(v.b)>n else top(n)
                return v
            if s.loads and isinstance(p,tuple):
                v=s.loads(p,I,n,m)
                if v is not None: return v
            return top(n) if n else ((("ld",I.id)+p,0) if isinstance(p,tuple) else None)
        if op=="store":
            v=s.val(e,I.a[0],None)
            if isinstance(v,V):
                # the width stored is that of the source value
                ln=s.stw(I)
                v=V(v.b[:ln]) if len(v.b)>=ln else v
            d=s.first(I,I.a[1],a[1],len(v.b) if isinstance(v,V) else None)
            w.append((d,v,I))
            if isinstance(d,tuple): m[d]=v
            return None
        if op=="getelementptr":
            p=a[0]
            if not isinstance(p,tuple): return None
            off=p[1]
            base=p[0]
            for st in I.p:
                if st[0] in("*","["):
                    x=s.val(e,st[2],64); k=x.const() if isinstance(x,V) else None
                    if k is None: return None
                    if k>=1<<63: k-=1<<64
                    z=st[3] if st[0]=="[" and len(st)>3 and st[3] in(1,2,4,8) else ELEM.get(st[1])
                    if s.flat and not z and k:
                        z=s.size(st[1])
                        if z is None: return None
                    if z: off+=k*z
                    elif k:
                        if isinstance(base,tuple) and len(base)==3 and base[1]=="at" and off==0: k+=base[2]; base,off=base[0]
                        if k: base=((base,off),"at",k); off=0
                elif st[0]=="f":
                    sn=st[1].replace("%struct.","")
                    if s.flat:
                        d=next((x[1]//8 for x in s.P.structs.get(sn,()) if x[0]==st[3]),None)
                        if d is None and st[2]==0: d=0         # the first field is at the start
                        if d is None: return None
                        off+=d; continue
                    # the containing object, recovered from the address of its first field
                    if off==0 and isinstance(base,tuple) and len(base)==4 and base[1:3]==("f",sn) and s.P.structs.get(sn) and s.P.structs[sn][0][0]==base[3] and s.P.structs[sn][0][1]==0 and isinstance(base[0],tuple): base,off=base[0]
                    base=((base,off),"f",sn,st[3]); off=0
                else: return None
            return (base,off)
        if op=="icmp": return s.cmp(I,e)
        if op=="select":
            c=s.val(e,I.a[0],1); k=c.const() if isinstance(c,V) else None
            x,y=s.val(e,I.a[1],n),s.val(e,I.a[2],n)
            return (x if k else y) if k is not None else (x if x==y else (top(n) if n else None))
        if op in BIN and n:
            x,y=a
            if not isinstance(x,V) or not isinstance(y,V): return top(n)
            if op=="and": return V(map(band,x.b,y.b))
            if op=="or": return V(map(bor,x.b,y.b))
            if op=="xor": return V(map(bxor,x.b,y.b))
            if op=="add": return add(x,y,n)
            if op=="sub":
                return add(x,V(map(bnot,y.b)),n,1)
            k=y.const()
            if op=="shl" and k is not None and k<n: return V([0]*k+list(x.b[:n-k]))
            if op=="lshr" and k is not None and k<n: return V(list(x.b[k:])+[0]*k)
            if op=="ashr" and k is not None and k<n: return V(list(x.b[k:])+[x.b[-1]]*k)
            if op=="mul":
                for p,q in((x,y),(y,x)):
                    k=q.const()
                    if k is not None:
                        r=C(0,n)
                        for i in range(n):
                            if k>>i&1: r=add(r,V([0]*i+list(p.b[:n-i])),n)
                        return r
            kx,ky=x.const(),y.const()
            if op in("udiv","sdiv") and kx is not None and ky and (op=="udiv" or kx<1<<(n-1) and ky<1<<(n-1)): return C(kx//ky,n)
            if op in("urem","srem") and kx is not None and ky and (op=="urem" or kx<1<<(n-1) and ky<1<<(n-1)): return C(kx%ky,n)
            if op=="mul" and False: pass
            if op in("udiv","urem") and k and k&(k-1)==0:
                j=k.bit_length()-1
                return V(list(x.b[j:])+[0]*j) if op=="udiv" else V(list(x.b[:j])+[0]*(n-j))
            return top(n)
        if op=="call":
            f=s.P.callname(s.F,I)
            if f in s.calls:
                h=s.calls[f]; k=h.__code__.co_argcount
                return h(I,a) if k==2 else h(I,a,m,w)
            g="memset" if f.startswith("llvm.memset") else "memcpy" if f.startswith("llvm.mem") or f=="memmove" else f
            if g in("memset","memcpy") and len(a)>2 and isinstance(a[0],tuple) and isinstance(a[0][1],int) and isinstance(a[2],V) and (a[2].const() or 9999)<=4096:
                d=a[0]; z=a[2].const(); src=a[1]
                if g=="memset": new={i:V(src.b[:8]) if isinstance(src,V) else top(8) for i in range(z)}
                elif isinstance(src,tuple) and isinstance(src[1],int): new={k[1]-src[1]:v for k,v in m.items() if isinstance(k,tuple) and len(k)==2 and k[0]==src[0] and isinstance(k[1],int) and 0<=k[1]-src[1]<z}
                else: new=None
                if new is not None:
                    for k in [k for k in m if k[0]==d[0] and isinstance(k[1],int) and d[1]<=k[1]<d[1]+z]: del m[k]
                    for i,v in new.items(): m[(d[0],d[1]+i)]=v; w.append(((d[0],d[1]+i),v,I))
                    return d
            if not f.startswith("llvm."):
                for x in a:
                    if isinstance(x,tuple):
                        for k in [k for k in m if k[0]==x[0]]: del m[k]
            return top(n) if n else (("call",I.id),0) if I.ty=="ptr" else None
        if op=="atomicrmw" and n:
            p=s.first(I,I.a[0],s.val(e,I.a[0],64),n); x=m.get(p) if isinstance(p,tuple) else None
            if x is None and s.loads and isinstance(p,tuple): x=s.loads(p,I,n,m)
            if isinstance(x,V) and len(x.b)<n: x=s.pieces(m,p,n) or x
            y=a[1] if isinstance(a[1],V) else top(n); x=x if isinstance(x,V) and len(x.b)==n else top(n)
            r={"add":lambda:add(x,y,n),"sub":lambda:add(x,V(map(bnot,y.b)),n,1),"xchg":lambda:y}.get(getattr(I,"pred",None),lambda:top(n))()
            w.append((p,r,I))
            if isinstance(p,tuple): m[p]=r
            return x
        if op=="alloca": return (("al",I.id) if s.tag is None else ("al",I.id,s.tag),0)
        return top(n) if n else None
    def pieces(s,m,p,n):
        """a value stored in pieces"""
        b=[]
        while len(b)<n and isinstance(p[1],int):
            x=m.get((p[0],p[1]+len(b)//8))
            if not isinstance(x,V) or len(x.b)%8 or len(b)+len(x.b)>n: break
            b+=list(x.b)
        return V(b) if len(b)==n else None
    def size(s,ty):
        """bytes of an element of an array"""
        from recmodel import struct_size
        g=re.match(r"\[(\d+) x (.*)\]$",ty)
        if g:
            z=s.size(g.group(2)); return None if z is None else z*int(g.group(1))
        return ELEM.get(ty) or struct_size(s.P,ty.replace("%struct.",""))
    def first(s,I,o,p,n):
        """the address of an object as that of its first field, if that is what is accessed"""
        if s.flat or not isinstance(p,tuple) or o[0]!="i" or (isinstance(p[0],tuple) and len(p[0])==4 and p[0][1]=="f" and p[1]==0): return p
        G=s.F.insts[o[1]]
        if G.op!="getelementptr" or not G.p or G.p[-1][0] not in("*","["): return p
        sn=str(G.p[-1][1]).replace("%struct.",""); S=s.P.structs.get(sn)
        if not S or S[0][1]!=0 or n is not None and S[0][2]!=n: return p
        return ((p,"f",sn,S[0][0]),0)
    def stw(s,I):
        o=I.a[0]
        if o[0]=="i": return s.width(s.F.insts[o[1]].ty) or 64
        return s.width(getattr(I,"vt",None)) or 8
    def cmp(s,I,e):
        ws=[s.width(s.F.insts[o[1]].ty) for o in I.a if o[0]=="i"]
        w=next((x for x in ws if x),None) or (32 if any(o[0]=="a" for o in I.a) else 64)
        x,y=s.val(e,I.a[0],w),s.val(e,I.a[1],w)
        if isinstance(x,tuple) or isinstance(y,tuple):
            if isinstance(x,tuple) and isinstance(y,tuple) and I.pred in("eq","ne"):
                if x==y: return C(I.pred=="eq",1)
                if "null" in(x[0],y[0]): return C(I.pred=="ne",1)
                p,q=root(x),root(y)
                if p!=q and all(isinstance(z,tuple) and z[0] in("al","heap","el") for z in(p,q)): return C(I.pred=="ne",1)
            if isinstance(x,tuple) and isinstance(y,tuple) and I.pred[0]=="u" and "null" not in(x[0],y[0]):
                # the order of two places of one object, and some order of different objects (code that asks for it is right for either)
                if x[0]==y[0] and isinstance(x[1],int) and isinstance(y[1],int): u,v=x[1],y[1]
                elif root(x)!=root(y): u,v=str(root(x)),str(root(y))
                else: return top(1)
                return C({"ult":u<v,"ule":u<=v,"ugt":u>v,"uge":u>=v}[I.pred],1)
            return top(1)
        if not isinstance(x,V) or not isinstance(y,V): return top(1)
        p=I.pred
        if p in("eq","ne"):
            diff=x.hi<y.lo or y.hi<x.lo or any(a in(0,1) and b in(0,1) and a!=b or a not in(0,1,"?") and b==bnot(a) for a,b in zip(x.b,y.b))
            if diff: return C(p=="ne",1)
            if x.const() is not None and x.const()==y.const() or x.b==y.b and "?" not in x.b: return C(p=="eq",1)
            return top(1)
        (xl,xh),(yl,yh)=((x.lo,x.hi),(y.lo,y.hi)) if p[0]=="u" else (x.signed(w),y.signed(w))
        q=p[1:]
        if q in("lt","le"):
            if (xh<yl) if q=="lt" else (xh<=yl): return C(1,1)
            if (xl>=yh) if q=="lt" else (xl>yh): return C(0,1)
        else:
            if (xl>yh) if q=="gt" else (xl>=yh): return C(1,1)
            if (xh<=yl) if q=="gt" else (xh<yl): return C(0,1)
        return top(1)
ELEM={"i8":1,"i16":2,"i32":4,"i64":8,"ptr":8}
CASTW=("zext","sext","trunc")
BIN=("and","or","xor","add","sub","shl","lshr","ashr","mul","udiv","urem","sdiv","srem")
