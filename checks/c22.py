"""Summary information: writing, reading, getting, setting and importing properties are interpreted at the level of bits, the
functions they are made of included, and compared with the documented property set format."""
from steps import *
from cmodel import *
MINIMUM={"property sets":60,"malformed streams":200,"accesses":200,"times":20}
TYPES={1:2,**{i:30 for i in(2,3,4,5,6,7,8,9,18)},**{i:64 for i in(10,11,12,13)},**{i:3 for i in(14,15,16,19)}}
N=20
GUID=[0xe0,0x85,0x9f,0xf2,0xf9,0x4f,0x68,0x10,0xab,0x91,0x08,0x00,0x2b,0x27,0xb3,0xd9]
def run(ctx):
    P=ctx.prog("libmsi")
    A=Acc(ctx,P)
    A.types(); A.write(); A.read(); A.malformed(); A.convert(); A.set(); A.get(); A.filetime(); A.imports(); A.listing()
    ctx.rule("Every property is of its documented type; any set of properties is written as the documented property set, byte for byte, and read back as the same set; a stream with other counts, offsets or lengths is never read beyond its end; getting, setting, importing and listing treat each property as its type demands.")
    ctx.assume=["mktime and g_date_time_new_from_unix_local are inverse to each other for times that exist once in the local time zone."]
def le(v,n): return [V(v.b[8*i:8*i+8]) if 8*i<len(v.b) else C(0,8) for i in range(n)]
def c(x,n): return [C(x>>8*i&255,8) for i in range(n)]
def cell(p):
    """(property id, field) of an address in a table of properties"""
    if not isinstance(p,tuple) or len(p)!=2 or p[1]!=0 or not isinstance(p[0],tuple) or len(p[0])!=4 or p[0][1]!="f": return None
    q,f=p[0][0],p[0][3]
    i=0
    if isinstance(q,tuple) and isinstance(q[0],tuple) and len(q[0])==3 and q[0][1]=="at": i=q[0][2]; q=q[0][0]
    if q==("PROPS",0) or isinstance(q,tuple) and isinstance(q[0],tuple) and len(q[0])==4 and q[0][1]=="f" and q[0][3]=="property": return (i,"vt" if f=="vt" else "val")
    return None
class Acc:
    def __init__(s,ctx,P):
        s.ctx,s.P=ctx,P
        s.fns={n for n,F in P.fns.items() if F.file and F.file.endswith("libmsi-summary-info.c")}
        s.strs={}
    def fn(s,n):
        F=s.ctx.need(s.P.fn(n),n+" not found"); s.ctx.fns([n]); return F,s.P.loc(F.blocks[0].insts[0])
    def go(s,n,args,props,calls=None,m=None,loads=None,update=None,limit=60000):
        """interpret a function; props: id -> (type, value)"""
        F,_=s.fn(n); M=CModel(s.P); s.M=M; m=dict(m or {}); s.bad=[]
        for i,(t,v) in props.items():
            if t==30 and isinstance(v,str): M.place(m,v,"S%d"%i); m[("size","S%d"%i)]=len(v)+1
        def own(p,I,n,mm):
            if loads:
                v=loads(p,I,n,mm)
                if v is not None: return v
            g=cell(p)
            if g is not None:
                i,f=g
                if not 0<=i<N: s.bad.append((i,I)); return None
                t,v=props.get(i,(0,None))
                if f=="vt": return C(t,n or 32)
                if t==30: return ("S%d"%i,0) if not n else None
                if isinstance(v,V): return V(v.b[:n]) if n else None
                return None
            if isinstance(p[0],tuple) and len(p[0])==4 and p[0][3]=="update_count" and update is not None: return C(update,n)
            if isinstance(p[0],tuple) and len(p[0])==4 and p[0][3]=="database": return ("DB",0)
            return None
        M.own=own
        def unref(I,a,m,w): return None
        base={"g_object_ref":lambda I,a:a[0],"g_object_unref":unref,"g_set_error":lambda I,a,m,w:(w.append((("event","error"),k(a[2]),I)),None)[1],"g_set_error_literal":lambda I,a,m,w:(w.append((("event","error"),k(a[2]),I)),None)[1],
              "g_return_if_fail_warning":lambda I,a,m,w:(w.append((("event","warn"),None,I)),None)[1],"g_warn_message":lambda I,a,m,w:(w.append((("event","warn"),None,I)),None)[1],
              "__assert_fail":lambda I,a,m,w:(w.append((("event","assert"),None,I)),None)[1],"g_assertion_message_expr":lambda I,a,m,w:(w.append((("event","assert"),None,I)),None)[1],
              "libmsi_summary_info_get_type":lambda I,a:C(77,64),"g_type_check_instance_cast":lambda I,a:a[0],"g_type_check_instance_is_a":lambda I,a:C(1)}
        M.calls.update(base); M.calls.update(calls or {})
        env={("a",i):x for i,x in enumerate(args)}
        R=Region(s.P,F,m,M.calls,limit,M.loads,s.fns-set(M.calls))
        return R.run(0,env)
    def state(s,e,w,props):
        """the properties after a run"""
        out={i:list(x) for i,x in props.items()}; m=e["mem"]
        for p,v in m.items():
            g=cell(p)
            if g is None: continue
            i,f=g; x=out.setdefault(i,[0,None])
            if f=="vt": x[0]=k(v)
            else: x[1]=v
        r={}
        for i,(t,v) in out.items():
            if not t: continue
            if t==30: v=v if isinstance(v,str) else s.M.str(m,v) if isinstance(v,tuple) else None
            r[i]=(t,v)
        return r
    # ---------------------------------------------------------------- types
    def types(s):
        F,loc=s.fn("get_type"); ctx=s.ctx
        for i in list(range(0,24))+[0xffffffff,0x80000000,256+2]:
            for kd,b,v,e,w in s.go("get_type",[C(i)],{}):
                ctx.ok()
                if k(v)!=TYPES.get(i,0): ctx.find("type:%d"%i,loc,"property %d is of type %s instead of %d"%(i,k(v),TYPES.get(i,0)))
    # ---------------------------------------------------------------- writing
    def sets(s):
        def v(i,n=2):
            t=TYPES[i]
            return (t,sym("p%d"%i,32)) if t in(2,3) else (t,sym("p%d"%i,64,64)) if t==64 else (30,"".join(chr(97+(i+j)%26) for j in range(n)))
        yield {}
        for i in TYPES: yield {i:v(i)}
        for n in(0,1,2,3,4,5,6,7,8,9): yield {2:v(2,n),9:v(9,3),12:v(12)}; yield {1:v(1),3:v(3,n)}
        for d in range(4): yield {i:v(i,(i+d)%5) for i in TYPES}
        yield {i:v(i,i%5) for i in TYPES if i%2}
        yield {i:v(i,i%5) for i in TYPES if not i%2}
        for a in(1,2,10,14):
            for b in(9,13,18,19): 
                if a<b: yield {a:v(a),b:v(b,7)}
    def layout(s,props):
        body=[]; offs=[]; n=len(props); at=8+8*n
        for i in sorted(props):
            t,v=props[i]; x=c(t,4)
            if t==30: b=v.encode(); l=len(b)+1; x+=c(l,4)+[C(y,8) for y in b+b"\0"]+[C(0,8)]*(-l%4)
            else: x+=le(v,8 if t==64 else 4)
            offs.append((i,at+len(body))); body+=x
        sec=c(at+len(body),4)+c(n,4)
        for i,o in offs: sec+=c(i,4)+c(o,4)
        return c(0xfffe,2)+c(0,2)+c(0x20005,4)+c(0,16)+c(1,4)+[C(x,8) for x in GUID]+c(48,4)+sec+body
    def bytes(s,m,p,n):
        out=[s.M.byte(m,(p[0],p[1]+i)) for i in range(n)]
        for (b,o),v in [(a,v) for a,v in m.items() if isinstance(a,tuple) and len(a)==2 and a[0]==p[0] and isinstance(a[1],int) and isinstance(v,V) and len(v.b)>8]:
            for j in range(len(v.b)//8):
                if 0<=o+j-p[1]<n: out[o+j-p[1]]=V(v.b[8*j:8*j+8])
        return out
    def write(s):
        ctx=s.ctx; F,loc=s.fn("suminfo_persist")
        for props in s.sets():
            want=s.layout(props); ctx.count("property sets"); seen=0
            def wr(I,a,m,w):
                n=k(a[3]); w.append((("event","stream"),(a[0],s.M.str(m,a[1]),s.bytes(m,a[2],n) if n is not None and n<65536 and isinstance(a[2],tuple) else None),I))
                if isinstance(a[4],tuple): m[a[4]]=("STM",0)
                return sym("result",32)
            for kd,b,v,e,w in s.go("suminfo_persist",[("SI",0),("OUT",0)],props,{"write_raw_stream_data":wr}):
                ev=events(w,"stream"); name="of properties %s"%sorted(props)
                if events(w,"assert"): continue
                seen+=1
                if len(ev)!=1 or ev[0][0]!=("OUT",0): ctx.find("write:once",loc,"a set %s is not written once to the database"%name); continue
                if ev[0][1]!="\5SummaryInformation": ctx.find("write:name",loc,"the stream written is named %r"%ev[0][1])
                d=ev[0][2]; ctx.ok("%s: %d bytes %s"%(loc,len(want),name))
                if d is None or len(d)!=len(want): ctx.find("write:size",loc,"a set %s is written as %s bytes instead of %d"%(name,len(d) if d else None,len(want))); continue
                bad=[i for i in range(len(d)) if d[i] is None or d[i].b!=want[i].b]
                if bad: ctx.find("write:bytes",loc,"byte %d of a set %s is not the documented one"%(bad[0],name))
                if not bits_eq(v,sym("result",32),32): ctx.find("write:result",loc,"the result of writing the stream is not passed on")
                o=s.M.outside(F,e["mem"],w)
                if o: ctx.find("write:room",s.P.loc(o[0][2]),"a set %s is written outside of its buffer"%name)
                if s.bad: ctx.find("write:table",s.P.loc(s.bad[0][1]),"property %d is looked at, which does not exist"%s.bad[0][0])
            if not seen: ctx.find("write:none",loc,"a set of properties %s cannot be written"%sorted(props))
    # ---------------------------------------------------------------- reading
    def load(s,data,props=None,more=None):
        n=len(data); outside=[]
        def loads(p,I,w,m):
            b=p[0]
            if isinstance(b,tuple) and b[0]=="heap" and isinstance(p[1],int) and m.get(("size",b))==n and m.get(("data",b)):
                if not 0<=p[1] or p[1]+(w or 64)//8>n: outside.append((p[1],I)); return C(0,w)
            return None
        def read(I,a,m,w):
            w.append((("event","read"),(a[0],k(a[1]),a[2]),I))
            if isinstance(a[2],tuple) and k(a[1])==n:
                m[("data",a[2][0])]=True
                for i,x in enumerate(data): m[(a[2][0],a[2][1]+i)]=x
            return a[2]
        def memcmp(I,a,m,w):
            z=k(a[2]); x,y=(s.bytes(m,p,z) if isinstance(p,tuple) else [None] for p in a[:2])
            for p in a[:2]:
                if isinstance(p,tuple) and m.get(("data",p[0])) and p[1]+z>n: outside.append((p[1]+z,I))
            if any(i is None or i.const() is None for i in x+y): return top(32)
            return C(0 if [i.const() for i in x]==[i.const() for i in y] else 1)
        def copy(I,a,m,w):
            z=k(a[2])
            if isinstance(a[1],tuple) and m.get(("data",a[1][0])) and (z is None or a[1][1]<0 or a[1][1]+z>n): outside.append((a[1][1],I))
            return s.M.c_memcpy(I,a,m,w)
        calls={"gsf_input_size":lambda I,a:C(n,64),"gsf_input_read":read,"memcmp":memcmp,"bcmp":memcmp,"llvm.memcpy.p0.p0.i64":copy,"memcpy":copy,**(more or {})}
        r=s.go("load_summary_info",[("SI",0),("STM",0)],props or {},calls,loads=loads)
        return [(x,outside,list(s.bad)) for x in r]
    def read(s):
        ctx=s.ctx; F,loc=s.fn("load_summary_info")
        for props in s.sets():
            data=s.layout(props); ctx.count("property sets"); seen=0
            for (kd,b,v,e,w),out,bad in s.load(data):
                if not events(w,"read"): continue
                seen+=1; got=s.state(e,w,{}); ctx.ok()
                if out: ctx.find("read:outside",s.P.loc(out[0][1]),"the stream of properties %s is read beyond its end"%sorted(props))
                o=s.M.outside(F,e["mem"],w)
                if o: ctx.find("read:room",s.P.loc(o[0][2]),"a value of a property is stored outside of its buffer")
                if not same(got,props): ctx.find("read:%s"%diff(got,props),loc,"a stream of properties %s is read as %s"%(show(props),show(got)))
            if not seen: ctx.find("read:none",loc,"a set of properties %s cannot be read"%sorted(props))
    def malformed(s):
        """offsets, counts and lengths that do not fit"""
        ctx=s.ctx; F,loc=s.fn("load_summary_info")
        A={2:(30,"ab"),12:(64,C(0x01c9856dd1234567,64)),14:(3,C(0x12345678))}
        base=s.layout(A); n=len(base)
        where={"section":44,"size":48,"count":52,"id":56,"offset":60,"offset2":68,"offset3":76,"length":48+8+24+4,"type":48+8+24,"type2":48+8+24+12,"type3":48+8+24+12+12}
        edge=sorted({x for y in(0,1,8,16,24,n-48,n,n-4,n-8,0x20000000,0x1fffffff,0x7fffffff,0x80000000,0xffffffff,0xfffffffc) for x in range(y-5,y+6) if 0<=x<1<<32}|{20,21,64,30})
        def time(I,a,m,w): m.pop(a[1],None); return top(32)
        def check(data,name):
            for (kd,b,v,e,w),out,bad in s.load(data,None,{"parse_filetime":time}):
                ctx.count("malformed streams")
                if out: ctx.find("bad:%s"%name.split()[0],s.P.loc(out[0][1]),"a stream with %s is read beyond its end"%name); return
                if bad: ctx.find("bad:%s:id"%name.split()[0],s.P.loc(bad[0][1]),"a stream with %s sets property %d"%(name,bad[0][0])); return
                o=s.M.outside(F,e["mem"],w)
                if o: ctx.find("bad:%s:room"%name.split()[0],s.P.loc(o[0][2]),"a stream with %s is stored outside of its buffer"%name); return
                if events(w,"assert"): ctx.find("bad:%s:abort"%name.split()[0],loc,"a stream with %s ends the program"%name); return
                for i,(t,v) in s.state(e,w,{}).items():
                    if not 0<=i<N or t!=TYPES.get(i,-1): ctx.find("bad:%s:type"%name.split()[0],loc,"a stream with %s makes property %d one of type %d"%(name,i,t)); return
                ctx.ok()
        for nm,at in where.items():
            for x in edge: check(base[:at]+c(x,4)+base[at+4:],"%s %d"%(nm,x))
        for l in range(0,n): check(base[:l],"length %d"%l)
        # entries that refer to the count as a value, so that each is valid, however little follows
        tiny=base[:44]+c(48,4)+c(8+8*3,4)+c(3,4)+(c(14,4)+c(4,4))*3
        for l in range(n-n,len(tiny)+1):
            for z in(8+24,16,0xffffffff): check(tiny[:48]+c(z,4)+tiny[52:][:max(0,l-52)] if l>52 else tiny[:l],"entries in %d bytes"%l)
        # refused altogether
        for nm,d in(("byte order",c(0xfeff,2)+base[2:]),("format",base[:28]+c(0,16)+base[44:])):
            for (kd,b,v,e,w),out,bad in s.load(d):
                ctx.count("malformed streams")
                if s.state(e,w,{}): ctx.find("bad:%s"%nm,loc,"a stream with another %s is read as properties"%nm)
    def convert(s):
        """a property stored as another type"""
        ctx=s.ctx; F,loc=s.fn("read_properties_from_data")
        for i,t in((1,2),(14,3),(12,64),(2,30)):
            for t2,v in((30,"1252"),(3,C(77)),(2,C(77)),(64,C(5,64))):
                if t2==t: continue
                d=s.layout({i:(t2,v)}); ctx.count("property sets")
                def pf(I,a,m,w): m[a[1]]=C(99,64); w.append((("event","time"),s.M.str(m,a[0]),I)); return C(1)
                for (kd,b,r,e,w),out,bad in s.load(d,None,{"parse_filetime":pf}):
                    got=s.state(e,w,{})
                    for j,(gt,gv) in got.items():
                        if gt!=t: ctx.find("convert:%d:%d"%(t,t2),loc,"a property of type %d stored as %d is read as one of type %d"%(t,t2,gt))
                        if t2!=30: ctx.find("convert:%d:%d"%(t,t2),loc,"a property of type %d stored as %d is accepted"%(t,t2))
                        elif t==64 and (events(w,"time")!=["1252"] or k(gv)!=99): ctx.find("convert:time",loc,"a time stored as text is not read as such")
                        elif t in(2,3) and k(gv)!=1252: ctx.find("convert:text",loc,"the number 1252 stored as text is read as %s"%k(gv))
    # ---------------------------------------------------------------- setting
    def set(s):
        ctx=s.ctx
        vals={2:sym("new",32),3:sym("new",32),64:sym("new",64,64),30:("NEW",0)}
        for api,types in(("libmsi_summary_info_set_string",(30,)),("libmsi_summary_info_set_int",(2,3)),("libmsi_summary_info_set_filetime",(64,))):
            F,loc=s.fn(api)
            for i in range(N+2):
                for have in(0,1):
                    for upd in(0,1,5):
                        t=TYPES.get(i,0)
                        if have and not t: continue
                        old={2:(2,C(1)),5:(30,"keep"),**({i:(t,"old" if t==30 else C(3,64))} if have else {})}
                        if not have: old.pop(i,None)
                        m={}; CModel(s.P).place(m,"value","NEW")
                        val=vals[types[0]]; seen=0
                        for kd,b,v,e,w in s.go(api,[("SI",0),C(i),val,("ERR",0)],old,m=m,update=upd,loads=lambda p,I,n,m:("null",0) if p==("ERR",0) else None):
                            ok=t in types and(have or upd>0); ctx.count("accesses"); r=k(v); seen+=1
                            if s.bad: ctx.find("set:outside",s.P.loc(s.bad[0][1]),"property %d is set, which does not exist"%i); continue
                            got=s.state(e,w,old); err=events(w,"error")
                            if r not in(0,1): ctx.find("set:result",loc,"the result of setting property %d is not known"%i); continue
                            if bool(r)!=ok: ctx.find("set:%s"%("refused" if ok else "accepted"),loc,"setting property %d%s, with %d more allowed, %s"%(i," that has a value" if have else "",upd,"fails" if ok else "succeeds")); continue
                            if ok==bool(err): ctx.find("set:error",loc,"an error is %sreported when setting a property %s"%("" if ok else "not ","succeeds" if ok else "fails")); continue
                            uc=[k(x) for p,x in e["mem"].items() if isinstance(p,tuple) and isinstance(p[0],tuple) and len(p[0])==4 and p[0][3]=="update_count"]
                            left=uc[0] if uc else upd
                            if left!=upd-(1 if ok and not have else 0): ctx.find("set:count",loc,"after setting %s property, %s more are allowed instead of %s"%("an existing" if have else "a new",left,upd-(1 if ok and not have else 0)))
                            want=dict(old)
                            if ok: want[i]=(t,"value" if t==30 else V(val.b[:64]))
                            if not same(got,want): ctx.find("set:value",loc,"setting property %d leaves the properties %s"%(i,show(got)))
                            if s.M.outside(F,e["mem"],w): ctx.find("set:room",loc,"the value of property %d is stored outside of its buffer"%i)
                        if not seen: ctx.find("set:none",loc,"property %d cannot be set"%i)
        # same number, other type already there
    def get(s):
        ctx=s.ctx; P=s.P
        T={n:P.enum("LIBMSI_PROPERTY_TYPE_"+n) for n in("INT","STRING","FILETIME","EMPTY")}
        kind={2:"INT",3:"INT",30:"STRING",64:"FILETIME",0:"EMPTY"}; vals={2:sym("x",32),3:sym("x",32),64:sym("x",64,64),30:"text"}
        fail={"INT":0xffffffff,"FILETIME":0,"STRING":"null"}
        for api,want in(("libmsi_summary_info_get_int","INT"),("libmsi_summary_info_get_string","STRING"),("libmsi_summary_info_get_filetime","FILETIME"),("libmsi_summary_info_get_property_type",None)):
            F,loc=s.fn(api)
            for i in list(range(N+2))+[0x7fffffff,0xffffffff]:
                for t in(0,2,3,30,64):
                    props={i:(t,vals[t])} if t and i<N else {}
                    if i>=N and t: continue
                    n=0
                    for kd,b,v,e,w in s.go(api,[("SI",0),C(i),("ERR",0)],props,loads=lambda p,I,n,m:("null",0) if p==("ERR",0) else None):
                        n+=1; ctx.count("accesses"); err=events(w,"error")
                        if s.bad: ctx.find("get:outside",P.loc(s.bad[0][1]),"property %d is looked at, which does not exist"%i); continue
                        if want is None:
                            if k(v)!=T[kind[t]]: ctx.find("get:type",loc,"the type of a property that is %s is given as %s"%(kind[t],k(v)))
                            if bool(err)!=(i>=N): ctx.find("get:type:error",loc,"for property %d, %s is reported"%(i,"an error" if err else "no error"))
                            continue
                        match=kind[t]==want
                        if bool(err)==match: ctx.find("get:error",loc,"getting a property that is %s as %s reports %s"%(kind[t],want,"an error" if err else "no error")); continue
                        if match: good=v==("S%d"%i,0) if t==30 else bits_eq(v,vals[t],len(vals[t].b))
                        else: good=v==("null",0) if want=="STRING" else isinstance(v,V) and k(v)==fail[want]
                        if not good: ctx.find("get:value",loc,"getting a property that is %s as %s gives something else than %s"%(kind[t],want,"its value" if match else "the documented failure value"))
                    if not n: ctx.find("get:none",loc,"property %d cannot be read"%i)
    # ---------------------------------------------------------------- times and text
    SEC=[0,1,59,86399,1000000000,1262347200,2147483647,4102444800,-1,-86400*365*50]
    TXT=["2009/02/03 04:05:06"," 2009/02/03 04:05:06","1999/12/31  23:59:59","2000/1/2 3:4:5"]
    def strtol(s,I,a,m,w):
        import re
        t=s.M.str(m,a[0])
        if t is None: return top(64)
        g=re.match(r"\s*([-+]?\d+)",t); n=g.end() if g else 0
        if isinstance(a[1],tuple) and a[1]!=("null",0): m[a[1]]=(a[0][0],a[0][1]+n)
        return C(int(g.group(1)) if g else 0,64)
    def filetime(s):
        ctx=s.ctx
        F,loc=s.fn("parse_filetime")
        for t in s.TXT:
            import re
            y,mo,d,h,mi,se=map(int,re.findall(r"\d+",t))
            for sec in s.SEC[:4] if t!=s.TXT[0] else s.SEC:
                def mk(I,a,m,w):
                    f={}
                    for p,v in m.items():
                        if isinstance(p,tuple) and isinstance(p[0],tuple) and len(p[0])==4 and p[0][3].startswith("tm_") and p[0][0]==a[0]: f[p[0][3]]=k(v)
                    # the first member may be written through the object's own address
                    for n,v in (("tm_isdst",None),): pass
                    w.append((("event","mktime"),f,I)); return C(sec,64)
                m={}; CModel(s.P).place(m,t,"TXT"); n=0
                for kd,b,v,e,w in s.go("parse_filetime",[("TXT",0),("FT",0)],{},{"strtol":s.strtol,"__isoc23_strtol":s.strtol,"mktime":mk},m=m):
                    ctx.count("times"); n+=1; ev=events(w,"mktime"); f=ev[0] if ev else {}
                    want={"tm_year":y-1900,"tm_mon":mo-1,"tm_mday":d,"tm_hour":h,"tm_min":mi,"tm_sec":se,"tm_isdst":-1}
                    bad=[x for x in want if f.get(x)!=want[x]&0xffffffff]
                    if k(v)!=1 or len(ev)!=1: ctx.find("time:parse",loc,"the text %r is not read as a time"%t); continue
                    if bad: ctx.find("time:fields",loc,"%s of %r is read as %s"%(bad[0],t,f.get(bad[0]))); continue
                    g=e["mem"].get(("FT",0)); w_=(sec+134774*86400)*10000000&(1<<64)-1
                    if k(g)!=w_: ctx.find("time:offset",loc,"second %d since 1970 becomes %s units of 100 ns since 1601"%(sec,k(g)))
                if not n: ctx.find("time:parse",loc,"the text %r is not read as a time"%t)
        for t in("","x","2009","2009/1","2009/1/2","2009/1/2x","2009/1/2 3","2009/1/2 3:4","2009-01-02 03:04:05"):
            m={}; CModel(s.P).place(m,t,"TXT")
            for kd,b,v,e,w in s.go("parse_filetime",[("TXT",0),("FT",0)],{},{"strtol":s.strtol,"__isoc23_strtol":s.strtol,"mktime":lambda I,a:C(1,64)},m=m):
                ctx.count("times")
                if k(v)!=0 or ("FT",0) in e["mem"]: ctx.find("time:accept",loc,"the text %r is read as a time"%t)
        F,loc=s.fn("filetime_to_string")
        for sec in s.SEC:
            for frac in(0,9999999):
                def new(I,a,m,w): w.append((("event","unix"),k(a[0]),I)); return ("DT",0)
                def fmt(I,a,m,w): w.append((("event","fmt"),(a[0],s.M.str(m,a[1])),I)); return ("TEXT",0)
                for kd,b,v,e,w in s.go("filetime_to_string",[C((sec+134774*86400)*10000000+frac,64)],{},{"g_date_time_new_from_unix_local":new,"g_date_time_format":fmt,"g_date_time_unref":lambda I,a:None}):
                    if v==("null",0): continue
                    ctx.count("times"); u=events(w,"unix"); f=events(w,"fmt")
                    if u!=[sec&(1<<64)-1]: ctx.find("time:text",loc,"the time %d seconds after 1970 is written as %s"%(sec,u))
                    if len(f)!=1 or f[0][0]!=("DT",0) or f[0][1] not in("%Y/%m/%d %H:%M:%S","%Y/%m/%d %T") or v!=("TEXT",0): ctx.find("time:format",loc,"a time is not written as YYYY/MM/DD hh:mm:ss")
    # ---------------------------------------------------------------- import
    def imports(s):
        ctx=s.ctx; F,loc=s.fn("msi_add_suminfo")
        vals={2:"1252",3:"-7",30:"some text",64:"2009/02/03 04:05:06"}
        def run(recs,cols,persist=0):
            m={}; M=CModel(s.P)
            for i,r in enumerate(recs):
                m[("RECS",8*i)]=("R%d"%i,0)
                for j,x in enumerate(r): m[("R%d"%i,8*j)]=("F%d_%d"%(i,j),0); M.place(m,x,"F%d_%d"%(i,j))
            def new(I,a,m,w): w.append((("event","new"),(a[0],k(a[1])),I)); return ("SI",0)
            def pers(I,a,m,w): w.append((("event","persist"),(a[0],a[1],dict(m)),I)); return C(persist)
            def setp(I,a,m,w):
                t=k(a[2]); v={2:a[3],3:a[3],30:s.M.str(m,a[5]) if isinstance(a[5],tuple) else None,64:m.get(a[4]) if isinstance(a[4],tuple) else None}.get(t)
                w.append((("event","assign"),(a[0],k(a[1]),t,k(v) if isinstance(v,V) else v),I)); return C(0)
            return s.go("msi_add_suminfo",[("DB",0),("RECS",0),C(len(recs)),C(cols)],{},{"libmsi_summary_info_new":new,"suminfo_persist":pers,"_libmsi_summary_info_set_property":setp,"strtol":s.strtol,"__isoc23_strtol":s.strtol,"mktime":lambda I,a:C(1000,64)},m=m,update=99)
        def expect(i):
            t=TYPES[i]; return (("SI",0),i,t,{2:1252,3:-7&0xffffffff,30:"some text",64:(1000+134774*86400)*10000000}[t])
        cases=[[i] for i in TYPES]+[[2,12],[1,2,3],list(TYPES)]
        for ids in cases:
            for persist in(0,5):
                n=0
                for kd,b,v,e,w in run([(str(i),vals[TYPES[i]]) for i in ids],2,persist):
                    n+=1; ctx.count("accesses"); st=events(w,"assign"); pe=events(w,"persist")
                    if st!=[expect(i) for i in ids]: ctx.find("import:set",loc,"the text of the properties %s sets %s"%(ids,[x[1:] for x in st])); continue
                    if [x[:2] for x in pe]!=[(("SI",0),("DB",0))]: ctx.find("import:persist",loc,"imported properties are not written to the database"); continue
                    if k(v)!=persist: ctx.find("import:result",loc,"the result of writing imported properties is not passed on")
                    nw=events(w,"new")
                    if len(nw)!=1 or nw[0][0]!=("DB",0) or nw[0][1] is None or nw[0][1]<len(ids): ctx.find("import:room",loc,"%d properties are imported, but only %s may be set"%(len(ids),nw[0][1] if nw else None))
                if not n: ctx.find("import:none",loc,"the properties %s cannot be imported"%ids)
        for bad in(["0","x"],["17","x"],["20","x"],["-1","x"],["999","x"],["12","yesterday"]):
            for kd,b,v,e,w in run([["2","t"],bad],2):
                ctx.count("accesses")
                if k(v)==0 or events(w,"persist"): ctx.find("import:accept",loc,"property %s with the text %r is imported"%tuple(bad))
                if events(w,"assert"): ctx.find("import:abort",loc,"property %s ends the program"%bad[0])
    def listing(s):
        """the identifiers of the properties that are set, and the text of each"""
        ctx=s.ctx; F,loc=s.fn("libmsi_summary_info_get_properties")
        for props in s.sets():
            def app(I,a,m,w): w.append((("event","append"),(k(m[a[1]]) if a[1] in m else None,k(a[2])),I)); return a[0]
            for kd,b,v,e,w in s.go("libmsi_summary_info_get_properties",[("SI",0)],props,{"g_array_append_vals":app,"g_array_new":lambda I,a:("ARR",0)}):
                ctx.count("accesses"); g=events(w,"append")
                if sorted(x[0] for x in g if x[1]==1)!=sorted(props) or v!=("ARR",0): ctx.find("list",loc,"of the properties %s, %s are listed"%(sorted(props),[x[0] for x in g]))
        F,loc=s.fn("summary_info_as_string")
        for i,t in((1,2),(14,3),(2,30),(12,64),(2,0)):
            v={2:C(1252),3:C(-7),30:"text",64:C(5,64),0:None}[t]
            for kd,b,r,e,w in s.go("summary_info_as_string",[("SI",0),C(i)],{i:(t,v)} if t else {},{"filetime_to_string":lambda I,a,m,w:("TIME%s"%k(a[0]),0)}):
                ctx.count("accesses"); x=s.M.str(e["mem"],r) if t!=64 else r
                if x!={2:"1252",3:"-7",30:"text",64:("TIME5",0),0:""}[t]: ctx.find("text",loc,"a property of type %d is written as %s"%(t,x))
def same(a,b):
    if set(a)!=set(b): return False
    for i in a:
        (t,v),(t2,v2)=a[i],b[i]
        if t!=t2: return False
        if isinstance(v2,V):
            n=64 if t==64 else 32
            if not isinstance(v,V) or v.b[:n]!=v2.b[:n]: return False
        elif v!=v2: return False
    return True
def diff(a,b):
    return "missing" if set(b)-set(a) else "extra" if set(a)-set(b) else "value"
def show(p): return {i:(t,v if not isinstance(v,V) else v.const() if v.const() is not None else "*") for i,(t,v) in sorted(p.items())}
