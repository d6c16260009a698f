"""C library functions on memory known to the bit-level interpreter (bits.py): strings, allocation, formatting."""
from bits import *
import re
def rebase(p,a,b):
    """the address p with the object at a replaced by the one at b"""
    if p==a: return b
    if isinstance(p,tuple) and len(p)==2 and isinstance(p[0],tuple) and len(p[0])>=3 and p[0][1] in("f","at"):
        q=rebase(p[0][0],a,b)
        if q!=p[0][0]: return ((q,)+p[0][1:],p[1])
    return p
def chartype(lib,c):
    """flags of a character in the tables of GLib and of the C library (C locale)"""
    ch=chr(c); a=c<128
    f={"alnum":a and ch.isalnum(),"alpha":a and ch.isalpha(),"cntrl":c<32 or c==127,"digit":48<=c<=57,"graph":33<=c<=126,"lower":97<=c<=122,"print":32<=c<=126,
       "punct":33<=c<=126 and not ch.isalnum(),"space":c in(9,10,11,12,13,32),"upper":65<=c<=90,"xdigit":a and ch in "0123456789abcdefABCDEF","blank":c in(9,32)}
    if lib=="glib":
        if c==11: f["space"]=False
        return sum(1<<i for i,n in enumerate(("alnum","alpha","cntrl","digit","graph","lower","print","punct","space","upper","xdigit")) if f[n])
    bit={"upper":8,"lower":9,"alpha":10,"digit":11,"xdigit":12,"space":13,"print":14,"graph":15,"blank":0,"cntrl":1,"punct":2,"alnum":3}
    return sum(1<<b for n,b in bit.items() if f[n])
class CModel:
    """hooks `calls` and `loads` for Region; own calls and loads take precedence"""
    def __init__(s,P,calls=None,loads=None):
        s.P=P; s.own=loads; s.calls={}
        for n in dir(s):
            if n.startswith("c_"): s.calls[n[2:]]=getattr(s,n)
        for a,b in(("g_strdup","strdup"),("g_malloc","malloc"),("g_try_malloc","malloc"),("g_malloc0","calloc1"),("g_realloc","realloc"),("g_try_realloc","realloc"),("g_free","free"),("llvm.memcpy.p0.p0.i64","memcpy"),("llvm.memmove.p0.p0.i64","memcpy"),("memmove","memcpy"),("llvm.memset.p0.i64","memset"),("atol","atoi"),("strtol","atoi"),("__isoc23_strtol","atoi"),("strtoul","atoi"),("__isoc23_strtoul","atoi"),("g_ascii_strtoll","atoi"),("g_ascii_strtoull","atoi"),("g_strndup","strndup"),("g_stpcpy","stpcpy"),("g_snprintf","snprintf"),("bcmp","memcmp"),("g_malloc_n","calloc0"),("g_malloc0_n","calloc"),("g_memdup2","memdup"),("g_ascii_toupper","toupper"),("g_ascii_tolower","tolower"),("g_string_append_len","g_string_append")): s.calls[a]=s.calls[b]
        for t in("i1","i8","i16","i32","i64","p0"): s.calls["llvm.is.constant."+t]=lambda I,a,m,w:C(0,1)
        # the interpreter tells hooks by their argument count
        for k,f in list(s.calls.items()): s.calls[k]=(lambda f:lambda I,a,m,w:f(I,a,m,w))(f)
        s.calls.update(calls or {})
    def loads(s,p,I,n,m):
        if p==(("g","g_ascii_table"),0) and n is None: return (("chartab","glib"),0)
        if p==(("chartab","loc"),0) and n is None: return (("chartab","libc"),0)
        if isinstance(p[0],tuple) and p[0][0]=="chartab" and n==16 and isinstance(p[1],int) and p[1]%2==0 and 0<=p[1]<512: return C(chartype(p[0][1],p[1]//2),16)
        if s.own:
            v=s.own(p,I,n,m)
            if v is not None: return v
            # a structure that was copied as a whole
            r=root(p)
            if ("copyof",r) in m:
                q=rebase(p,(r,0),m[("copyof",r)])
                if q!=p:
                    v=m[q] if q in m else s.own(q,I,n,m)
                    if v is not None: return v
        if n==8:
            v=s.byte(m,p)
            if v is not None: return v
        z=m.get(("zero",p[0]))
        if z is not None and isinstance(p[1],int) and 0<=p[1]<z: return C(0,n) if n else ("null",0)
        if isinstance(p[0],tuple) and len(p[0])>=3 and p[0][1] in("f","at"):
            r=root(p); z=m.get(("zero",r))
            if z is not None:
                # a field of an object that was cleared as a whole
                from recmodel import flat
                q=flat(s.P,p)
                if q and q[0]==r and 0<=q[1]<z:
                    for a,v in m.items():
                        if isinstance(a,tuple) and len(a)==2 and root(a)==r:
                            g=flat(s.P,a)
                            if g is None: return None
                            if g==q: return v if isinstance(v,V)==bool(n) else None
                    return C(0,n) if n else ("null",0)
        return None
    def byte(s,m,p):
        if p in m: return m[p] if isinstance(m[p],V) else None
        if isinstance(p[0],tuple) and p[0][0]=="g":
            g=s.P.globals.get(p[0][1])
            if g and g.get("const") and isinstance(p[1],int):
                d=s.flat(g["t"],g.get("init"))
                if d is not None and 0<=p[1]<len(d) and d[p[1]] is not None: return C(d[p[1]],8)
            t=s.P.cstr(p[0])
            if t is not None and isinstance(p[1],int):
                t=t.encode("utf-8","surrogateescape")+b"\0"
                if 0<=p[1]<len(t): return C(t[p[1]],8)
        z=m.get(("zero",p[0]))
        if z is not None and isinstance(p[1],int) and 0<=p[1]<z: return C(0,8)
        return None
    def flat(s,ty,init):
        """bytes of a constant object (little endian), unknown ones None"""
        g=re.match(r"\[(\d+) x (.*)\]$",ty)
        if g and isinstance(init,list):
            out=[]
            for x in init:
                d=s.flat(g.group(2),x)
                if d is None: return None
                out+=d
            return out
        if re.match(r"i(8|16|32|64)$",ty) and isinstance(init,int): return [init>>8*i&255 for i in range(int(ty[1:])//8)]
        st=s.P.structs.get(ty.replace("%struct.",""))
        if st and isinstance(init,list) and len(init)==len(st):
            out=[None]*max((f[1]+f[2])//8 for f in st)
            for x,f in zip(init,st):
                n=f[2]//8
                if isinstance(x,int): d=[x>>8*i&255 for i in range(n)]
                elif isinstance(x,list) and x and all(isinstance(y,int) for y in x) and n%len(x)==0: d=[y>>8*i&255 for y in x for i in range(n//len(x))]
                else: continue
                out[f[1]//8:f[1]//8+n]=d
            return out
        return None
    def text(s,m,p,limit=400):
        """bytes of the string at p (8-bit vectors, without the end), or None if not known"""
        if not isinstance(p,tuple) or len(p)!=2 or not isinstance(p[1],int): return None
        out=[]
        for i in range(limit):
            b=s.byte(m,(p[0],p[1]+i))
            if b is None: return None
            k=b.const()
            if k==0: return out
            if k is None and b.lo==0: return None
            out.append(V(b.b[:8],b.lo,b.hi))
        return None
    def raw(s,m,p):
        """the bytes of a string"""
        t=s.text(m,p)
        return None if t is None or any(x.const() is None for x in t) else bytes(x.const() for x in t)
    def str(s,m,p):
        t=s.text(m,p)
        if t is None or any(x.const() is None for x in t): return None
        return bytes(x.const() for x in t).decode("utf-8","replace")
    def put(s,m,w,p,bs,I):
        for i,b in enumerate(bs):
            m[(p[0],p[1]+i)]=b; w.append(((p[0],p[1]+i),b,I))
    def place(s,m,t,base):
        """text put into memory before the run"""
        t=t.encode() if isinstance(t,str) else t
        for i,c in enumerate(t+b"\0"): m[(base,i)]=C(c,8)
        return (base,0)
    # ---- strings
    def c_strlen(s,I,a,m,w):
        t=s.text(m,a[0]); return C(len(t),64) if t is not None else top(64)
    def copy(s,I,d,src,m,w,at=0):
        t=s.text(m,src)
        if t is None or not isinstance(d,tuple) or not isinstance(d[1],int):
            if isinstance(d,tuple):
                for k in [k for k in m if k[0]==d[0]]: del m[k]
            return d
        s.put(m,w,(d[0],d[1]+at),t+[C(0,8)],I); return d
    def c_strcpy(s,I,a,m,w): return s.copy(I,a[0],a[1],m,w)
    def c_strcat(s,I,a,m,w):
        t=s.text(m,a[0])
        return s.copy(I,a[0],a[1] if t is not None else None,m,w,len(t or ()))
    def c_strcmp(s,I,a,m,w):
        x,y=(s.raw(m,p) for p in a[:2])
        if x is None or y is None: return top(32)
        return C(0 if x==y else 1 if x>y else -1)
    def c_g_strcmp0(s,I,a,m,w):
        n=[p==("null",0) for p in a[:2]]
        return C(n[1]-n[0]) if any(n) else s.c_strcmp(I,a,m,w)
    def c_strncmp(s,I,a,m,w):
        x,y=(s.raw(m,p) for p in a[:2]); n=a[2].const() if isinstance(a[2],V) else None
        if x is None or y is None or n is None: return top(32)
        x,y=x[:n],y[:n]; return C(0 if x==y else 1 if x>y else -1)
    def c_memcpy(s,I,a,m,w):
        n=a[2].const() if isinstance(a[2],V) else None; d,x=a[0],a[1]
        if n is None or n>65536 or not isinstance(d,tuple) or not isinstance(x,tuple) or not isinstance(d[1],int) or not isinstance(x[1],int):
            if isinstance(d,tuple):
                for k in [k for k in m if k[0]==d[0]]: del m[k]
            return d
        cells={k[1]-x[1]:v for k,v in m.items() if k[0]==x[0] and isinstance(k[1],int) and 0<=k[1]-x[1]<n}
        if isinstance(x[0],tuple) and x[0][0]=="g":
            for i in range(n):
                b=s.byte(m,(x[0],x[1]+i))
                if b is not None: cells[i]=b
        for k in [k for k in m if k[0]==d[0] and isinstance(k[1],int) and d[1]<=k[1]<d[1]+n]: del m[k]
        for i,v in sorted(cells.items()): m[(d[0],d[1]+i)]=v
        for q,v in [(q,v) for q,v in m.items() if isinstance(q,tuple) and len(q)==2 and isinstance(q[0],tuple) and rebase(q,x,d)!=q]: m[rebase(q,x,d)]=v
        if not d[1] and ("zero",d[0]) not in m: m[("copyof",d[0])]=x
        w.append((("event","copy"),(d,x,n),I))
        return d
    def c_memset(s,I,a,m,w):
        n=a[2].const() if isinstance(a[2],V) else None; d=a[0]; k=a[1].const() if isinstance(a[1],V) else None
        if isinstance(d,tuple) and isinstance(d[1],int):
            for x in [x for x in m if x[0]==d[0] and isinstance(x[1],int) and (n is None or d[1]<=x[1]<d[1]+n)]: del m[x]
            if k==0 and d[1]==0 and n is not None: m[("zero",d[0])]=n
            if isinstance(d[0],str) and k is not None and n is not None and n<=4096:
                for i in range(n): m[(d[0],d[1]+i)]=C(k&255,8)
        w.append((("event","set"),(d,k,n),I)); return d
    def c___ctype_b_loc(s,I,a,m,w): return (("chartab","loc"),0)
    def c_toupper(s,I,a,m,w): return s.chr(I,a[0],lambda c:c-32 if 97<=c<=122 else c)
    def c_tolower(s,I,a,m,w): return s.chr(I,a[0],lambda c:c+32 if 65<=c<=90 else c)
    def c_g_ascii_digit_value(s,I,a,m,w): return s.chr(I,a[0],lambda c:c-48 if 48<=c<=57 else 0xffffffff)
    def chr(s,I,x,f):
        n={"i8":8,"i32":32}.get(I.ty,32); k=s.k(x)
        if k is None: return top(n)
        if k&0xffffff80: return C(k,n)
        return C(f(k),n)
    def lim(s,a,m): 
        """the text at a[1], no longer than a[2]"""
        t=s.text(m,a[1]); n=s.k(a[2])
        return None if t is None or n is None else t[:n]
    def c_stpcpy(s,I,a,m,w):
        t=s.text(m,a[1]); s.copy(I,a[0],a[1],m,w)
        return (a[0][0],a[0][1]+len(t)) if t is not None and isinstance(a[0],tuple) and isinstance(a[0][1],int) else None
    def c_g_strlcpy(s,I,a,m,w):
        t=s.text(m,a[1]); n=s.k(a[2])
        if t is None or n is None or not isinstance(a[0],tuple): return s.copy(I,a[0],None,m,w) and top(64)
        if n: s.put(m,w,a[0],t[:n-1]+[C(0,8)],I)
        return C(len(t),64)
    def c_strncpy(s,I,a,m,w):
        t=s.text(m,a[1]); n=s.k(a[2])
        if t is None or n is None or n>65536 or not isinstance(a[0],tuple): return s.copy(I,a[0],None,m,w)
        s.put(m,w,a[0],(t+[C(0,8)]*n)[:n],I); return a[0]
    def c_strncat(s,I,a,m,w):
        t=s.text(m,a[0]); u=s.lim(a,m)
        if t is None or u is None: return s.copy(I,a[0],None,m,w)
        s.put(m,w,(a[0][0],a[0][1]+len(t)),u+[C(0,8)],I); return a[0]
    def find(s,m,p,c,last=False):
        t=s.text(m,p); k=s.k(c)
        if t is None or k is None: return None
        k&=255; hit=None
        for i,x in enumerate(t+[C(0,8)]):
            if x.const() is None:
                if x.lo<=k<=x.hi: return None
            elif x.const()==k:
                hit=i
                if not last: break
        return ("null",0) if hit is None else (p[0],p[1]+hit)
    def c_strchr(s,I,a,m,w): return s.find(m,a[0],a[1])
    def c_strrchr(s,I,a,m,w): return s.find(m,a[0],a[1],True)
    def c_strstr(s,I,a,m,w):
        x,y=s.str(m,a[0]),s.str(m,a[1])
        if x is None or y is None: return None
        i=x.find(y); return ("null",0) if i<0 else (a[0][0],a[0][1]+len(x[:i].encode()))
    def span(s,a,m,inside):
        t=s.text(m,a[0]); u=s.str(m,a[1])
        if t is None or u is None: return top(64)
        n=0
        for x in t:
            if x.const() is None: return top(64)
            if (chr(x.const()) in u)!=inside: break
            n+=1
        return C(n,64)
    def c_strspn(s,I,a,m,w): return s.span(a,m,True)
    def c_strcspn(s,I,a,m,w): return s.span(a,m,False)
    def c_memcmp(s,I,a,m,w):
        n=s.k(a[2])
        if n is None or n>4096: return top(32)
        for i in range(n):
            x,y=((s.byte(m,(p[0],p[1]+i)) if isinstance(p,tuple) and isinstance(p[1],int) else None) for p in a[:2])
            x,y=s.k(x),s.k(y)
            if x is None or y is None: return top(32)
            if x!=y: return C(1 if x>y else -1)
        return C(0)
    def c_g_str_has_prefix(s,I,a,m,w):
        x,y=s.str(m,a[0]),s.str(m,a[1])
        return top(32) if x is None or y is None else C(x.startswith(y))
    def c_g_str_has_suffix(s,I,a,m,w):
        x,y=s.str(m,a[0]),s.str(m,a[1])
        return top(32) if x is None or y is None else C(x.endswith(y))
    def fresh(s,I,m,w,t):
        p=s.new(I,m,w,len(t)+1 if t is not None else None)
        if t is not None: s.put(m,w,p,t+[C(0,8)],I)
        return p
    def c_strndup(s,I,a,m,w): return s.fresh(I,m,w,s.lim([None]+list(a),m))
    def c_memdup(s,I,a,m,w):
        p=s.new(I,m,w,s.k(a[1])); s.c_memcpy(I,[p,a[0],a[1]],m,w); return p
    def c_g_strconcat(s,I,a,m,w):
        t=[]
        for x in a:
            if x==("null",0): break
            u=s.text(m,x)
            if u is None: t=None; break
            t=t+u
        return s.fresh(I,m,w,t)
    def c_snprintf(s,I,a,m,w):
        t=s.format(m,a[2],a[3:]); n=s.k(a[1]); w.append((("event","format"),(a[0],tuple(a[2:])),I))
        if t is None or n is None:
            if isinstance(a[0],tuple):
                for k in [k for k in m if k[0]==a[0][0]]: del m[k]
            return top(32)
        if n and isinstance(a[0],tuple) and a[0]!=("null",0): s.put(m,w,a[0],t[:n-1]+[C(0,8)],I)
        return C(len(t))
    # ---- GString: an object with the fields str and len, and a buffer of its own that is large enough
    def gs(s,m,g,t=None):
        """text of a GString, or what it becomes"""
        if not isinstance(g,tuple): return None
        buf=(("gsbuf",g[0]),0); S="_GString"
        if t is None: return s.text(m,buf) if m.get(((g,"f",S,"len"),0)) is not None else None
        return buf
    def gput(s,I,m,w,g,t):
        if not isinstance(g,tuple): return g
        buf=(("gsbuf",g[0]),0); S="_GString"
        for k in [k for k in m if k[0]==buf[0]]: del m[k]
        if t is None: m[((g,"f",S,"len"),0)]=top(64); return g
        for i,b in enumerate(t+[C(0,8)]): m[(buf[0],i)]=b
        for x in(g,((g,"f",S,"str"),0)): m[x]=buf
        m[((g,"f",S,"len"),0)]=C(len(t),64); m[((g,"f",S,"allocated_len"),0)]=C(1<<20,64)
        m[(g[0],g[1]+8)]=C(len(t),64); m[(g[0],g[1]+16)]=C(1<<20,64)
        return g
    def c_g_string_new(s,I,a,m,w):
        g=s.new(I,m,w,24); return s.gput(I,m,w,g,[] if a[0]==("null",0) else s.text(m,a[0]))
    def c_g_string_sized_new(s,I,a,m,w): return s.gput(I,m,w,s.new(I,m,w,24),[])
    def gadd(s,I,m,w,g,t,at=None):
        o=s.gs(m,g)
        if o is None or t is None: return s.gput(I,m,w,g,None)
        at=len(o) if at is None else at
        return s.gput(I,m,w,g,o[:at]+t+o[at:])
    def c_g_string_append(s,I,a,m,w):
        t=s.text(m,a[1])
        if len(a)>2:
            n=s.k(a[2]); t=None if t is None or n is None else t if n>>63 else t[:n]
        return s.gadd(I,m,w,a[0],t)
    def c_g_string_append_len_inline(s,I,a,m,w): return s.c_g_string_append(I,a,m,w)
    def c_g_string_append_c(s,I,a,m,w): return s.gadd(I,m,w,a[0],[V(a[1].b[:8],*( (a[1].lo,a[1].hi) if a[1].hi<256 else ()))] if isinstance(a[1],V) else None)
    def c_g_string_append_c_inline(s,I,a,m,w): return s.c_g_string_append_c(I,a,m,w)
    def c_g_string_prepend(s,I,a,m,w): return s.gadd(I,m,w,a[0],s.text(m,a[1]),0)
    def c_g_string_insert_c(s,I,a,m,w):
        k=s.k(a[1]); return s.gadd(I,m,w,a[0],[V(a[2].b[:8])] if isinstance(a[2],V) and k is not None else None,None if k is None or k>>63 else k)
    def c_g_string_append_printf(s,I,a,m,w):
        w.append((("event","format"),(a[0],tuple(a[1:])),I)); s.gadd(I,m,w,a[0],s.format(m,a[1],a[2:])); return None
    def c_g_string_printf(s,I,a,m,w):
        w.append((("event","format"),(a[0],tuple(a[1:])),I)); s.gput(I,m,w,a[0],s.format(m,a[1],a[2:])); return None
    def c_g_string_assign(s,I,a,m,w): return s.gput(I,m,w,a[0],s.text(m,a[1]))
    def c_g_string_truncate(s,I,a,m,w):
        o=s.gs(m,a[0]); k=s.k(a[1]); return s.gput(I,m,w,a[0],None if o is None or k is None else o[:k])
    def c_g_string_truncate_inline(s,I,a,m,w): return s.c_g_string_truncate(I,a,m,w)
    def c_g_string_free(s,I,a,m,w):
        k=s.k(a[1]) if len(a)>1 else 0
        return ("null",0) if k else (("gsbuf",a[0][0]),0) if isinstance(a[0],tuple) else None
    def c_g_string_free_and_steal(s,I,a,m,w): return (("gsbuf",a[0][0]),0) if isinstance(a[0],tuple) else None
    # ---- allocation
    def new(s,I,m,w,n,zero=False):
        base=("heap",I.id,sum(1 for x in w if x[0]==("event","alloc")))
        if n is not None: m[("size",base)]=n
        if zero and n is not None: m[("zero",base)]=n
        w.append((("event","alloc"),(base,n),I)); return (base,0)
    def k(s,v): return v.const() if isinstance(v,V) else None
    def c_malloc(s,I,a,m,w): return s.new(I,m,w,s.k(a[0]))
    def c_calloc1(s,I,a,m,w): return s.new(I,m,w,s.k(a[0]),True)
    def c_calloc0(s,I,a,m,w):
        x,y=s.k(a[0]),s.k(a[1]); return s.new(I,m,w,x*y if x is not None and y is not None else None)
    def c_calloc(s,I,a,m,w):
        x,y=s.k(a[0]),s.k(a[1]); return s.new(I,m,w,x*y if x is not None and y is not None else None,True)
    def c_realloc(s,I,a,m,w):
        p=s.new(I,m,w,s.k(a[1])); o=a[0]
        if isinstance(o,tuple):
            for (b,i),v in [(x,v) for x,v in m.items() if x[0]==o[0] and isinstance(x[1],int)]: m[(p[0],i)]=v
            if ("zero",o[0]) in m: m[("zero",p[0])]=m[("zero",o[0])]
        return p
    def c_free(s,I,a,m,w): w.append((("event","free"),a[0],I)); return None
    def c_strdup(s,I,a,m,w):
        if a[0]==("null",0): return ("null",0)
        t=s.text(m,a[0]); p=s.new(I,m,w,len(t)+1 if t is not None else None)
        if t is not None: s.put(m,w,p,t+[C(0,8)],I)
        return p
    # ---- formatting
    def format(s,m,fmt,args):
        """bytes of a formatted text, or None"""
        f=s.str(m,fmt)
        if f is None: return None
        out=[]; args=list(args)
        for t in re.findall(r"%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|z)?[a-zA-Z%]|[^%]+",f):
            if t[0]!="%": out+=[C(c,8) for c in t.encode()]; continue
            if t=="%%": out.append(C(37,8)); continue
            if not args: return None
            x=args.pop(0)
            if t=="%s":
                b=s.text(m,x)
                if b is None: return None
                out+=b
            elif t[-1] in"diuxXc":
                k=s.k(x)
                if k is None: return None
                n=64 if "l" in t or "z" in t else 32; k&=(1<<n)-1
                if t[-1] in"di" and k>=1<<(n-1): k-=1<<n
                r=chr(k&255) if t[-1]=="c" else re.sub(r"hh|h|ll|l|z","",t).replace("u","d")%k
                out+=[C(c,8) for c in r.encode("latin1")]
            else: return None
        return out
    def c_sprintf(s,I,a,m,w):
        t=s.format(m,a[1],a[2:]); w.append((("event","format"),(a[0],tuple(a[1:])),I))
        if t is None or not isinstance(a[0],tuple):
            if isinstance(a[0],tuple):
                for k in [k for k in m if k[0]==a[0][0]]: del m[k]
            return top(32)
        s.put(m,w,a[0],t+[C(0,8)],I); return C(len(t))
    def c_g_strdup_printf(s,I,a,m,w):
        t=s.format(m,a[0],a[1:]); p=s.new(I,m,w,len(t)+1 if t is not None else None); w.append((("event","format"),(p,tuple(a)),I))
        if t is not None: s.put(m,w,p,t+[C(0,8)],I)
        return p
    def c_atoi(s,I,a,m,w):
        t=s.str(m,a[0])
        if t is None: return top(32 if I.ty=="i32" else 64)
        g=re.match(r"\s*([-+]?\d+)",t); return C(int(g.group(1)) if g else 0,32 if I.ty=="i32" else 64)
    def c_g_log(s,I,a,m,w): w.append((("event","log"),s.k(a[1]),I)); return None
    # ---- bounds
    def outside(s,F,m,w):
        """writes outside of objects of known size"""
        size={x[1][0]:x[1][1] for x in w if x[0]==("event","alloc")}
        for I in s.P.insts(F):
            if I.op=="alloca" and I.sz: size[("al",I.id)]=I.sz
        out=[]
        for a,v,I in w:
            if a==("event","copy") and isinstance(v[0],tuple): b,o,n=v[0][0],v[0][1],v[2]
            elif isinstance(a,tuple) and a[0]!="event" and len(a)==2 and isinstance(a[1],int): b,o,n=a[0],a[1],len(v.b)//8 if isinstance(v,V) else 8
            else: continue
            if size.get(b) is not None and (o<0 or o+n>size[b]): out.append((b,o,I))
        return out
