"""Record fields: every function on records is interpreted at the level of bits, on records made by the library's own functions,
after every way to fill a field; what the fields give back is compared with what was put in them."""
from steps import *
from cmodel import *
from recmodel import *
import re,itertools
MINIMUM={"changes":150,"observations":1500}
NULLI=0x80000000
TEXTS=["a","abc","12","-7","0012","2147483647","-2147483647","2147483648","-2147483648","-2147483649","4294967297","99999999999999999999","1x","x1","--1","1-","+1"," 1","1.5","1:","1/",":","it's","\u00e9"]
INTS=[0,1,-1,7,-123456,0x7fffffff,-0x7fffffff,-0x80000000]
def run(ctx):
    P=ctx.prog("libmsi"); W=World(ctx,P)
    W.values(); W.changes(); W.copies(); W.compares(); W.streams()
    ctx.rule("A field gives back exactly the last value put in it, as a number, as text or as a stream, and no function changes another field; fields beyond the last are refused and empty; what fields hold is released exactly once; text is cut to the buffer it is put in.")
def intof(t):
    """number a text stands for; None: is none; "?": left open"""
    if t=="-": return "?"
    if not re.match(r"-?[0-9]+$",t): return None
    return int(t)&0xffffffff   # cut to 32 bits
class World:
    def __init__(s,ctx,P):
        s.ctx,s.P=ctx,P; s.M=CModel(P); F=ctx.need(P.fn("libmsi_record_get_int"),"libmsi_record_get_int not found")
        s.inline={n for n,G in P.fns.items() if G.file==F.file}|{n for n in P.fns if n in("strcpyn",)}
        s.S=next(x for x in("_LibmsiRecord","LibmsiRecord") if x in P.structs)
        c=s.M.calls
        def kill(I,a,m,w):
            p=a[0]
            if isinstance(p,tuple) and p!=("null",0):
                w.append((("event","free"),p,I))
                for x in [x for x in m if isinstance(x,tuple) and x[0]==p[0]]: del m[x]
                m.pop(("zero",p[0]),None)
            elif not isinstance(p,tuple): w.append((("event","free"),p,I))
            return None
        for n in("free","g_free"): c[n]=kill
        def new(R,I,a,m,w):
            m,w=dict(m),list(w); b=("heap","rec",sum(1 for x in w if x[0]==("event","newrec"))); w.append((("event","newrec"),b,I)); args=list(a[1:])
            m[(b,0)]=("class",0); m[("zero",b)]=struct_size(P,s.S)
            while args and args[0]!=("null",0):
                n=s.M.str(m,args.pop(0))
                if n=="count" and args: m[(b,struct_off(P,s.S,"count"))]=V(args[0].b[:32]) if isinstance(args[0],V) else top(32)
                elif args: args.pop(0); continue
                else: break
                args.pop(0)
            G=s.fn("libmsi_record_constructed")
            Q=type(R)(P,G,m,R.calls,R.limit-R.n,R.loads,R.inline,(R.tag,I.id),True); out=[]
            for kd,bb,v,e,w2 in Q.run(0,{("a",0):(b,0)},w=w): out.append(((b,0),e["mem"],w2))
            R.n+=Q.n; return out
        new.fork=True; c["g_object_new"]=new
        def ref(I,a,m,w): w.append((("event","ref"),a[0],I)); return a[0]
        def unref(I,a,m,w): w.append((("event","unref"),a[0],I)); return None
        c.update({"g_object_ref":ref,"g_object_unref":unref,"g_type_check_instance_is_a":lambda I,a,m,w:C(1),"GObjectClass->finalize":lambda I,a,m,w:None,"_GObjectClass->finalize":lambda I,a,m,w:None,
            "gsf_input_dup":lambda I,a,m,w: s.stm(I,m,w,a[0]),"libmsi_istream_new":lambda I,a,m,w:(("is",a[0]),0),
            "gsf_input_memory_new":lambda I,a,m,w:s.stm(I,m,w,("bytes",a[0],k(a[1]),k(a[2]))),"libmsi_result_error_quark":lambda I,a,m,w:C(5)})
        for n in list(P.fns)+["g_input_stream_get_type","g_cancellable_get_type"]:
            if n.endswith("_get_type"): c[n]=lambda I,a,m,w:C(77,64)
        for n in("g_type_check_instance_cast","g_type_check_class_cast"): c[n]=lambda I,a,m,w:a[0]
        def warn(I,a,m,w): w.append((("event","warn"),None,I)); return None
        for n in("g_warn_message","g_log","g_return_if_fail_warning","g_logv"): c[n]=warn
        for n in("g_set_error","g_set_error_literal"):
            def err(I,a,m,w): w.append((("event","error"),a[0],I)); return None
            c[n]=err
        def own(p,I,n,m):
            if p==(("g","libmsi_record_parent_class"),0): return ("pclass",0)
            if p[0]=="pclass" and n is None: return ("null",0) if I.ty=="ptr" and s.slot(p)!="finalize" else ("fin",0)
            if p==("class",0) and n==64: return C(77,64)
            return None
        s.M.own=own; s.loadhook=s.M.loads
    def slot(s,p):
        return "constructed" if p[1]!=struct_off(s.P,"_GObjectClass","finalize") else "finalize"
    def stm(s,I,m,w,of):
        b=("stm",sum(1 for x in w if x[0]==("event","newstm"))+100); w.append((("event","newstm"),(b,of),I)); m[(b,0)]=("class",0); return (b,0)
    def fn(s,name): return s.ctx.need(s.P.fn(name),name+" not found")
    def do(s,name,args,st):
        """runs a function: (value, state) for each way through, of which there is one when everything is known"""
        m,w=st; F=s.fn(name); s.ctx.fns([name])
        R=Region(s.P,F,dict(m),s.M.calls,60000,s.loadhook,s.inline-set(s.M.calls),("c36",name,len(w)),True)
        env={("a",i):C(x,32) if isinstance(x,int) else x for i,x in enumerate(args)}
        try: out=R.run(0,env,w=list(w))
        except Exception as e:
            if "too large" not in str(e): raise
            out=[]
        s.ctx.stuck(out,name,s.P.loc(F.blocks[0].insts[0]))
        return [(v,(e["mem"],w2)) for kd,b,v,e,w2 in out]
    def one(s,name,args,st,what=""):
        r=s.do(name,args,st)
        if len(r)!=1 : s.find("%s:undecided"%name,name,"%s is not decided by its arguments and the record %s"%(name,what)); 
        return r[0] if r else (None,st)
    def find(s,key,name,what): s.ctx.find(key,s.P.loc(s.fn(name).blocks[0].insts[0]),what)
    # ---- states and what they hold
    def record(s,n,st=None):
        v,st=s.one("libmsi_record_new",[n],st or ({},[]))
        return v,st
    def text(s,st,t):
        m,w=dict(st[0]),st[1]; b=("txt",t); s.M.place(m,t,b); return (b,0),(m,w)
    def set(s,st,r,f,x):
        """puts a value into a field by the public functions"""
        if x is None: p,st=s.text(st,""); return s.one("libmsi_record_set_string",[r,f,p],st)
        if x[0]=="int": return s.one("libmsi_record_set_int",[r,f,x[1]],st)
        if x[0]=="text": p,st=s.text(st,x[1]); return s.one("libmsi_record_set_string",[r,f,p],st)
        return s.one("_libmsi_record_set_gsf_input",[r,f,x[1]],s.stream(st,x[1]))
    def stream(s,st,p):
        m=dict(st[0]); m[p]=("class",0); return m,st[1]
    def observe(s,st,r,f,x,what,streams=True):
        """a field holds the value x (None: nothing)"""
        def bad(key,t): s.find(key,key.split(":")[0],"%s, %s"%(what,t))
        s.ctx.count("observations")
        v,_=s.one("libmsi_record_is_null",[r,f],st)
        if k(v)!=(1 if x is None else 0): bad("libmsi_record_is_null:null","field %d is said to be %s"%(f&0xffff,"set" if x is None else "null"))
        # as a number
        v,t=s.one("libmsi_record_get_int",[r,f],st)
        want=NULLI if x is None or x[0]=="stm" else x[1] if x[0]=="int" else intof(x[1])
        if want is None: want=NULLI
        if want!="?":
            same=bits_eq(v,want,32) if isinstance(want,V) else k(v)==want&0xffffffff
            if not same: bad("libmsi_record_get_int:value","field %d with the value %s gives the number %s"%(f&0xffff,show(x),show(v)))
        # as text
        conc=None if x is None else x[1] if x[0]=="text" else str(sg(x[1])) if x[0]=="int" and not isinstance(x[1],V) else None
        if x is None or conc is not None:
            v,t=s.one("libmsi_record_get_string",[r,f],st); got=s.M.str(t[0],v)
            if got!=(conc or ""): bad("libmsi_record_get_string:text","field %d with the value %s gives the text %s"%(f&0xffff,show(x),got))
            elif not any(y[0]==v[0] for y in events(t[1],"alloc")): bad("libmsi_record_get_string:owned","gives text that is not the caller's own")
            elif isinstance(v,tuple) and any(isinstance(z,tuple) and z[0]==v[0] for z in events(t[1],"free")): bad("libmsi_record_get_string:freed","gives text that is released")
            n=len((conc or "").encode())
            for size in sorted({0,1,2,n,n+1,n+5}):
                if size==0: continue
                m,w=dict(st[0]),st[1]; B,N=("buf",0),("size",0)
                for i in range(n+8): m[("buf",i)]=C(0xee,8)
                m[N]=C(size)
                v,t=s.one("_libmsi_record_get_string",[r,f,B,N],(m,w)); full=(conc or "").encode()
                got=[k(t[0].get(("buf",i))) for i in range(n+8)]; exp=list(full[:size-1])+[0]
                if got[:len(exp)]!=exp: bad("_libmsi_record_get_string:text","field %d with the value %s puts %s into a buffer of %d"%(f&0xffff,show(x),got[:len(exp)],size))
                if any(y!=0xee for y in got[size:]): bad("_libmsi_record_get_string:size","field %d with the value %s writes behind a buffer of %d"%(f&0xffff,show(x),size))
                if k(t[0].get(N))!=n: bad("_libmsi_record_get_string:length","field %d with the value %s tells the length %s"%(f&0xffff,show(x),k(t[0].get(N))))
                if (k(v)!=0)!=(n>=size): bad("_libmsi_record_get_string:cut","field %d with the value %s in a buffer of %d %s"%(f&0xffff,show(x),size,"is cut without a word" if k(v)==0 else "fails"))
            m=dict(st[0]); m[("size",0)]=C(99)
            v,t=s.one("_libmsi_record_get_string",[r,f,("null",0),("size",0)],(m,st[1]))
            if k(v)!=0 or k(t[0].get(("size",0)))!=n: bad("_libmsi_record_get_string:asked","the length of field %d with the value %s is %s"%(f&0xffff,show(x),k(t[0].get(("size",0)))))
            v,t=s.one("msi_dup_record_field",[r,f],st)
            if (v!=("null",0) if x is None else s.M.str(t[0],v)!=conc): bad("msi_dup_record_field:text","field %d with the value %s is copied as %s"%(f&0xffff,show(x),s.M.str(t[0],v)))
        v,t=s.one("_libmsi_record_get_string_raw",[r,f],st)
        if (s.M.str(t[0],v)!=x[1]) if x is not None and x[0]=="text" else v!=("null",0): bad("_libmsi_record_get_string_raw:text","field %d with the value %s has the text %s"%(f&0xffff,show(x),s.M.str(t[0],v) if isinstance(v,tuple) else v))
        # as a stream
        m=dict(st[0]); m[("out",0)]=("null",0)
        v,t=s.one("_libmsi_record_get_gsf_input",[r,f,("out",0)],(m,st[1])); got=t[0].get(("out",0)); ok=x is not None and x[0]=="stm"
        if (k(v)==0)!=ok or ok and got!=x[1]: bad("_libmsi_record_get_gsf_input:stream","field %d with the value %s gives the stream %s"%(f&0xffff,show(x),got))
        elif ok and s.refs(t[1],x[1])!=s.refs(st[1],x[1])+1: bad("_libmsi_record_get_gsf_input:held","gives a stream without a reference of its own")
        v,t=s.one("libmsi_record_get_stream",[r,f],st)
        if (v!=(("is",x[1]),0)) if ok else v!=("null",0): bad("libmsi_record_get_stream:stream","field %d with the value %s gives the stream %s"%(f&0xffff,show(x),v))
    def refs(s,w,p): return sum(1 for v in events(w,"ref") if v==p)-sum(1 for v in events(w,"unref") if v==p)
    def final(s,st,rs,held,what):
        """records are destroyed: everything they hold is released once"""
        for r in rs: v,st=s.one("libmsi_record_finalize",[r],st)
        w=st[1]; fr=[x[0] if isinstance(x,tuple) else x for x in events(w,"free")]
        for b,n in events(w,"alloc"):
            if b[0]!="heap": continue
            if fr.count(b)==0: s.find("released:never","libmsi_record_finalize","%s, memory is never released"%what); break
            if fr.count(b)>1: s.find("released:twice","libmsi_record_finalize","%s, memory is released twice"%what); break
        if any(not isinstance(x,tuple) or x[0]!="heap" for x in fr): s.find("released:other","libmsi_record_finalize","%s, memory is released that is not the record's"%what)
        for p,own in held.items():
            if s.refs(w,p)+own!=0: s.find("released:stream","libmsi_record_finalize","%s, the record keeps %+d references of a stream"%(what,s.refs(w,p)+own))
    # ---- the values of fields
    def values(s):
        A=V([("x",i,0) for i in range(32)])
        vals=[None]+[("int",x) for x in INTS]+[("int",A)]+[("text",t) for t in TEXTS]+[("stm",(("stm",1),0))]
        for x in vals:
            r,st=s.record(3)
            if not isinstance(r,tuple): return s.find("new","libmsi_record_new","no record is made")
            v,_=s.one("libmsi_record_get_field_count",[r],st)
            if k(v)!=3: s.find("count","libmsi_record_get_field_count","a record of 3 fields has %s"%k(v))
            v,st=s.set(st,r,2,x); s.ctx.ok()
            ok=k(v)==(0 if x and x[0]=="stm" else 1)
            if not ok: s.find("set","libmsi_record_set_string","a field cannot be set to %s"%show(x))
            s.observe(st,r,2,x,"after it was set")
            for f in(0,1,3): s.observe(st,r,f,None,"after another field was set")
    KINDS=[None,("int",V([("y",i,0) for i in range(32)])),("text","old"),("stm",(("stm",1),0))]
    def changes(s):
        """every function that changes a field, on every kind of field"""
        B=V([("z",i,0) for i in range(32)]); new=[None,("int",B),("text","new"),("stm",(("stm",2),0)),("clear",),("nulltext",)]
        for a,b,f in itertools.product(s.KINDS,new,(0,1,2,3,4,0xffffffff)):
            s.ctx.count("changes"); s.ctx.ok()
            r,st=s.record(3); have={}
            for i,x in enumerate((a,("int",C(5)),a,("text","t"))):
                v,st=s.set(st,r,i,x); have[i]=x
            if b is not None and b[0]=="clear": v,st=s.one("libmsi_record_clear",[r],st); have={i:None for i in have}; name="libmsi_record_clear"; done=k(v)==1
            elif b is not None and b[0]=="nulltext": v,st=s.one("libmsi_record_set_string",[r,f,("null",0)],st); name="libmsi_record_set_string"; done=k(v)==1
            else: v,st=s.set(st,r,f,b); name="libmsi_record_set_int" if b and b[0]=="int" else "_libmsi_record_set_gsf_input" if b and b[0]=="stm" else "libmsi_record_set_string"; done=k(v)==(0 if b and b[0]=="stm" else 1)
            if b is None or b[0]!="clear":
                if done!=(f<=3): s.find("%s:range"%name,name,"field %d of a record of 3 fields is %s"%(f,"set" if done else "not set"))
                if f<=3: have[f]=None if b is None or b[0]=="nulltext" else b
            what="after field %d (%s) of four was set to %s"%(f&0xffff,show(a),show(b))
            for i,x in have.items(): s.observe(st,r,i,x,what)
            s.observe(st,r,4,None,what)
            s.final(st,[r],{(("stm",i),0):0 for i in(1,2)},what)
    def copies(s):
        """copies of fields and of records"""
        F="_libmsi_record_copy_field"
        for a,b in itertools.product(s.KINDS,s.KINDS):
            for i,o,own in((1,2,0),(2,1,1),(1,1,1),(0,3,0),(3,1,0),(1,3,0),(1,2,1),(4,1,0),(1,4,0),(1,3,2),(1,3,4)):
                # a copy from field i of one record to field o of another (or the same one)
                s.ctx.count("changes"); s.ctx.ok()
                r,st=s.record(3); have={}; q=r; hq=have
                for j,x in enumerate((a,a,a if i==2 else b,a)): v,st=s.set(st,r,j,x); have[j]=x
                n=3
                if own!=1:
                    n=own or 3; q,st=s.record(n,st); hq={}
                    for j,x in enumerate((b,)*(n+1)): v,st=s.set(st,q,j,x); hq[j]=x
                v,st=s.one(F,[r,i,q,o],st)
                if (k(v)==0)!=(i<=3 and o<=n): s.find("copy:range",F,"a copy from field %d to field %d of three %s"%(i,o,"succeeds" if k(v)==0 else "fails"))
                if i<=3 and o<=n: hq[o]=have[i]
                what="after field %d (%s) was copied to field %d"%(i,show(have.get(i)),o)
                for j,x in have.items(): s.observe(st,r,j,x,what)
                for j,x in hq.items(): s.observe(st,q,j,x,what)
                if q!=r:
                    # the copy is independent
                    v,st2=s.one("libmsi_record_clear",[r],st)
                    s.observe(st2,q,min(o,n),hq[min(o,n)],"after a field was copied and the other record cleared")
                s.final(st,[r] if q==r else [r,q],{(("stm",j),0):0 for j in(1,2)},what)
        G="_libmsi_record_clone"
        for a,b in itertools.product(s.KINDS,s.KINDS):
            s.ctx.ok(); r,st=s.record(3); have={}
            for j,x in enumerate((b,a,("text","t"),a)): v,st=s.set(st,r,j,x); have[j]=x
            q,st=s.one(G,[r],st)
            if not isinstance(q,tuple) or q==("null",0): s.find("clone",G,"a record is not copied"); continue
            v,_=s.one("libmsi_record_get_field_count",[q],st)
            if k(v)!=3: s.find("clone:count",G,"the copy of a record of 3 fields has %s"%k(v)); continue
            new=dict(events(st[1],"newstm"))
            for j,x in have.items():
                s.observe(st,r,j,x,"after the record was copied")
                if x is not None and x[0]=="stm":
                    m=dict(st[0]); m[("out",0)]=("null",0); v,t=s.one("_libmsi_record_get_gsf_input",[q,j,("out",0)],(m,st[1])); g=t[0].get(("out",0))
                    if k(v)!=0 or not isinstance(g,tuple) or (g!=x[1] and new.get(g[0])!=x[1]): s.find("clone:stream",G,"the copy of a record has the stream %s instead of one of its own"%(g,))
                    x=("stm",g)
                s.observe(st,q,j,x,"in the copy of a record")
            v,st2=s.one("libmsi_record_clear",[r],st)
            s.observe(st2,q,2,("text","t"),"in a copy whose original was cleared")
            s.final(st,[r,q],dict([((("stm",1),0),0)]+[((g,0),1) for g in new]),"after a record was copied")
    def compares(s):
        F="_libmsi_record_compare"
        for n1,n2,f in((3,3,0),(3,3,1),(3,3,3),(1,1,1),(2,3,1),(3,2,1),(0,0,0)):
            for a,b in itertools.product([None,("int",5),("int",0),("int",-5),("text","5"),("text","a"),("text","A"),("stm",(("stm",1),0))],repeat=2):
                s.ctx.ok(); s.ctx.count("comparisons")
                r,st=s.record(n1); q,st=s.record(n2,st)
                v,st=s.set(st,r,f,a); v,st=s.set(st,q,f,b)
                if n1==n2 and f!=n1:
                    v,st=s.set(st,r,n1,("text","same")); v,st=s.set(st,q,n1,("text","same"))
                v,_=s.one(F,[r,q],st); want=n1==n2 and a==b and not(a and a[0]=="stm")
                if k(v)!=int(want): s.find("compare",F,"records of %d and %d fields whose field %d is %s and %s are %s"%(n1,n2,f,show(a),show(b),"equal" if k(v) else "different"))
    def streams(s):
        """a stream read from another one: all of it or nothing"""
        F="libmsi_record_set_stream"; c=s.M.calls
        for a,f,(ok,n) in itertools.product(s.KINDS,(0,1,3,4),((1,10),(1,9),(1,0),(0,0),(0,4))):
            s.ctx.count("changes"); s.ctx.ok()
            def read(I,a_,m,w):
                if isinstance(a_[3],tuple) and a_[3]!=("null",0): m[a_[3]]=C(n,64)
                w.append((("event","read"),(a_[1],k(a_[2])),I))
                if not ok: w.append((("event","error"),a_[5],I))
                return C(ok)
            c["g_input_stream_read_all"]=read
            r,st=s.record(3); have={}
            for j in range(4): v,st=s.set(st,r,j,a); have[j]=a
            m=dict(st[0]); m[("in",0)]=("class",0); m[("ERR",0)]=("null",0)
            v,st=s.one(F,[r,f,("in",0),C(10,64),("null",0),("ERR",0)],(m,st[1]))
            want=ok and n==10 and 1<=f<=3
            if (k(v)==1)!=bool(want): s.find("set_stream:result",F,"a stream of 10 bytes of which %d can be read, for field %d, %s"%(n,f,"succeeds" if k(v) else "fails")); continue
            if not want and f in(1,2,3) and not events(st[1],"error"): s.find("set_stream:error",F,"a stream of which %d of 10 bytes can be read fails without an error"%n)
            new=events(st[1],"newstm")
            if want:
                rd=events(st[1],"read")
                if len(new)!=1 or len(rd)!=1 or new[0][1][0]!="bytes" or new[0][1][1]!=rd[0][0] or rd[0][1]!=10 or new[0][1][2]!=10: s.find("set_stream:bytes",F,"the stream does not have the 10 bytes that were read"); continue
                if any(isinstance(x,tuple) and x[0]==rd[0][0][0] for x in events(st[1],"free")): s.find("set_stream:freed",F,"the bytes of the stream are released") ; continue
                if new[0][1][3]==0: s.find("set_stream:kept",F,"the bytes of the stream are never released")
                have[f]=("stm",(new[0][0],0))
            for j,x in have.items(): s.observe(st,r,j,x,"after a stream was set from another one")
        del c["g_input_stream_read_all"]
def sg(v): 
    v=v.const() if isinstance(v,V) else v&0xffffffff
    return (v^0x80000000)-0x80000000
def show(x):
    if x is None: return "null"
    if isinstance(x,V): return str(x.const()) if x.const() is not None else "?"
    if x[0]=="int": return "number %s"%(show(x[1]) if isinstance(x[1],V) else x[1])
    if x[0]=="text": return "'%s'"%x[1]
    if x[0]=="stm": return "stream"
    return str(x[0])
