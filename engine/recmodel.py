"""Records and structures known to the bit-level interpreter: fields of records, named fields of structures."""
from bits import *
from cmodel import CModel
NULLI=0x80000000
def kc(v): return v.const() if isinstance(v,V) else None
def field(p):
    """(object, index, field name) of an address of a field; containers of fields at the beginning of an object are looked through"""
    if not isinstance(p,tuple) or len(p)!=2 or p[1]!=0 or not isinstance(p[0],tuple) or len(p[0])!=4 or p[0][1]!="f": return None
    q=p[0][0]; i=0; nm=p[0][3]
    while isinstance(q[0],tuple) and len(q[0])==4 and q[0][1]=="f": q=q[0][0]
    if isinstance(q[0],tuple) and len(q[0])==3 and q[0][1]=="at": i=q[0][2]; q=q[0][0]
    return q[0],i,nm
class Records:
    """hooks for the functions of records; a field is None or ("int",n), ("text",t), ("stream",x)"""
    def __init__(s,M): s.M=M
    def put(s,m,rec,fields):
        m[("count",rec)]=len(fields)
        for i,v in enumerate(fields):
            if v is not None: m[("fld",(rec,i+1))]=v
        return (rec,0)
    def all(s,m,rec):
        b=rec[0] if isinstance(rec,tuple) else rec
        return tuple(sorted((x[1][1],v) for x,v in m.items() if x[0]=="fld" and x[1][0]==b and v is not None))
    def get(s,m,a,i): return m.get(("fld",(a[0],kc(i)))) if isinstance(a,tuple) else None
    def calls(s):
        M=s.M; ev=lambda w,n,v,I:w.append((("event",n),v,I))
        def new(I,a,m,w):
            r=("rec",I.id,sum(1 for x in w if x[0]==("event","record"))); ev(w,"record",(r,kc(a[0])),I); m[("count",r)]=kc(a[0]); return (r,0)
        def room(m,a,i):
            n=m.get(("count",a[0])) if isinstance(a,tuple) else None; return n is not None and i is not None and 0<=i<=n
        def setter(f):
            def g(I,a,m,w):
                i=kc(a[1])
                if not room(m,a[0],i): ev(w,"nofield",i,I); return C(0)
                m[("fld",(a[0][0],i))]=f(m,a[2]); return C(1)
            return g
        set_int=setter(lambda m,v:None if kc(v)==NULLI else ("int",kc(v)))
        def text(m,v):
            if v==("null",0): return None
            t=M.str(m,v); return ("text",t) if t else None
        set_string=setter(text)
        def set_stream(I,a,m,w):
            i=kc(a[1])
            if not room(m,a[0],i): return C(6)
            m[("fld",(a[0][0],i))]=("stream",a[2]); return C(0)
        def get_stream(I,a,m,w):
            v=s.get(m,a[0],a[1])
            if not v or v[0]!="stream": return C(6)
            m[a[2]]=v[1]; return C(0)
        def get_int(I,a,m,w):
            v=s.get(m,a[0],a[1])
            return C(v[1]) if v and v[0]=="int" and v[1] is not None else C(NULLI)
        def get_str(I,a,m,w):
            v=s.get(m,a[0],a[1])
            return M.place(m,v[1],("heap","txt",v[1])) if v and v[0]=="text" and v[1] is not None else ("null",0)
        def is_null(I,a,m,w): return C(s.get(m,a[0],a[1]) is None)
        def count(I,a,m,w): return C(m.get(("count",a[0][0]),0))
        def copy(I,a,m,w):
            i,o=kc(a[1]),kc(a[3])
            if not room(m,a[0],i) or not room(m,a[2],o): return C(7)
            m[("fld",(a[2][0],o))]=s.get(m,a[0],a[1]); return C(0)
        nop=lambda I,a,m,w:None
        return {"libmsi_record_new":new,"libmsi_record_set_int":set_int,"libmsi_record_set_string":set_string,"_libmsi_record_set_gsf_input":set_stream,"_libmsi_record_get_gsf_input":get_stream,
            "libmsi_record_get_int":get_int,"_libmsi_record_get_string_raw":get_str,"libmsi_record_get_string":lambda I,a,m,w:M.c_strdup(I,[get_str(I,a,m,w)],m,w),"libmsi_record_is_null":is_null,"libmsi_record_get_field_count":count,"_libmsi_record_copy_field":copy,
            "g_object_unref":nop,"g_object_ref":lambda I,a,m,w:a[0],"debugstr_a":lambda I,a,m,w:("null",0),
            "g_type_check_instance_cast":lambda I,a,m,w:a[0]}
def struct_off(P,S,f):
    """byte offset of a named field"""
    for x in P.structs.get(S,[]):
        if x[0]==f and x[1]%8==0: return x[1]//8
    return None
def struct_size(P,S):
    z=P.sizes.get(S) if isinstance(P.sizes,dict) else None
    if z: return z//8 if z%8==0 and z>=64 and P.structs.get(S) and z>=P.structs[S][-1][1]+P.structs[S][-1][2] else z
    f=P.structs.get(S)
    if not f: return None
    n=(f[-1][1]+f[-1][2]+7)//8; a=max([min(8,x[2]//8) for x in f if x[2]] or [1]); return (n+a-1)//a*a
def flat(P,p,elem=None):
    """(object, byte offset) of an address, whatever structure it was reached through; None if not constant"""
    if not isinstance(p,tuple) or len(p)!=2 or not isinstance(p[1],int): return None
    b,o=p
    if isinstance(b,tuple) and len(b)==4 and b[1]=="f":
        d=struct_off(P,b[2],b[3]); r=flat(P,b[0],b[2])
        return (r[0],r[1]+d+o) if r and d is not None else None
    if isinstance(b,tuple) and len(b)==3 and b[1]=="at" and isinstance(b[2],int):
        z=None; q=b[0]
        if isinstance(q,tuple) and isinstance(q[0],tuple) and len(q[0])==4 and q[0][1]=="f":
            t=next((x[3] for x in P.structs.get(q[0][2],[]) if x[0]==q[0][3]),""); 
            if t.endswith("[]"): z=struct_size(P,t[:-2].replace("struct ","").replace("union ","").strip())
        if z is None and elem: z=struct_size(P,elem)
        r=flat(P,q)
        return (r[0],r[1]+b[2]*z+o) if r and z else None
    return b,o
class Objects:
    """external objects given by their bytes: name -> {offset: number or address}"""
    def __init__(s,P): s.P=P; s.o={}
    def put(s,name,S=None,**f):
        d=s.o.setdefault(("heap",name),{})
        for x,v in f.items():
            off=struct_off(s.P,S,x); assert off is not None,(S,x); d[off]=v
        return (("heap",name),0)
    def at(s,name,off,v): s.o.setdefault(("heap",name),{})[off]=v
    def load(s,p,n):
        r=flat(s.P,p)
        if r is None or r[0] not in s.o: return None
        v=s.o[r[0]].get(r[1])
        if v is None: return None
        if n: return C(v,n) if isinstance(v,int) else None
        return v if isinstance(v,tuple) else ("null",0) if v==0 else None
