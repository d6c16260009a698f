"""The stored form of the string pool: one step of each of the loops that size, write and read it is interpreted at the level
of bits on every kind of entry (unused, empty, short, long), and what is stored, counted and passed on is compared with the format."""
from steps import *
import itertools
MINIMUM={"cases":40}
ST="string_table"; MS="msistring"
def index(a,idx):
    f=is_field(a,MS,idx); return f[0] if f else None
def own(a,idx): return is_field(a,ST,idx) is not None
def run(ctx):
    P=ctx.prog("libmsi")
    fld={x[0]:x[0] for x in P.structs[ST]}; mf={x[0]:x[0] for x in P.structs[MS]}
    ctx.need({"maxcount","codepage","strings","sorted","sortcount"}<=set(fld) and {"persistent_refcount","nonpersistent_refcount","str"}<=set(mf),"fields of the string pool")
    found=[]
    def find(key,where,what): found.append((key,where,what))
    save(ctx,P,fld,mf); load(ctx,P,fld,mf); search(ctx,P,fld,mf); entry(ctx,P,fld,mf)
    ctx.rule("For every kind of entry, the bytes stored by one step of the writer, the sizes counted for it beforehand and the string, length, count and position taken from it by the reader are those of the format; ids are positions; the header holds the codepage and the width of references; the sorted index is searched and kept in one order.")
def loadhook(fld,mf,n,ref=None,nonref=None,string=("STRN",0),maxcount=20,cp=None):
    def f(p,I,w,m):
        if own(p,fld["maxcount"]): return maxcount if isinstance(maxcount,V) else C(maxcount)
        if own(p,fld["codepage"]): return cp if cp is not None else sym("cp",31,32,1)
        if own(p,fld["strings"]): return ("STRINGS",0)
        if own(p,fld["sorted"]): return ("SORTED",0)
        for k,v in(("persistent_refcount",ref),("nonpersistent_refcount",nonref),("str",string)):
            i=index(p,mf[k])
            if i is not None and v is not None:
                if i==n: return v
                return (("OTHER",i),0) if k=="str" else sym("other",16,16)
        return None
    return f
def roles(P,F,h,e,want):
    """assignments of the roles {name: (start value, step object or None)} to the loop's variables: name -> (phi, make)"""
    ph=phis(F,h); R=Region(P,F,{}); cand={}
    for name,(c0,unit,obj) in want.items():
        cand[name]=[]
        for I in ph:
            v=e.get(I.id); w=R.width(I.ty)
            if isinstance(v,V) and v.const()==c0: cand[name].append((I,lambda x,w=w:C(x,w),lambda v:v.const() if isinstance(v,V) else None,1,lambda v:v if isinstance(v,V) else None))
            elif isinstance(v,V) and unit>1 and v.const()==c0*unit: cand[name].append((I,lambda x,w=w,u=unit:C(x*u,w),lambda v,u=unit:v.const()//u if isinstance(v,V) and v.const() is not None else None,1,lambda v:None))
            elif isinstance(v,tuple) and obj and v==(obj,c0*unit): cand[name].append((I,lambda x,o=obj,u=unit:(o,x*u),lambda v,o=obj,u=unit:v[1]//u if isinstance(v,tuple) and v[0]==o else None,1,lambda v:None))
    for combo in itertools.product(*[cand[n] for n in want]):
        if len({c[0].id for c in combo})==len(combo): yield dict(zip(want,combo))
def best(ctx,trials,what):
    """findings of the assignment of roles that fits best"""
    ts=[f for f in trials]
    ctx.need(ts,"the variables of the loop that %s were not recognised"%what)
    fs,n=min(ts,key=lambda x:len(x[0]))
    ctx.count("cases",n)
    for k,w,t in fs: ctx.find(k,w,t)
def save(ctx,P,fld,mf):
    F=ctx.need(P.fn("msi_save_string_table"),"msi_save_string_table not found"); ctx.fns([F.src]); loc0=P.loc(F.blocks[0].insts[0])
    def mkcalls(ds,ps,sz=None,pos=None,evs=None):
        def total(I,a,m,w):
            if isinstance(a[1],tuple): m[a[1]]=C(ds)
            if isinstance(a[2],tuple): m[a[2]]=C(ps)
            return None
        def alloc(I,a): 
            n=next((k(x) for x in a if k(x) is not None),None)
            return ("POOL" if n==ps else "DATA" if n==ds else ("MEM",I.id),0)
        def sid(I,a,m,w):
            w.append((("event","id"),(k(a[1]),a[2]),I))
            if isinstance(a[3],tuple): m[a[3]]=sz
            return C(0)
        def wr(I,a,m,w): w.append((("event","write"),(a[1],a[2],k(a[3])),I)); return C(0)
        return {"string_totalsize":total,"malloc":alloc,"g_malloc":alloc,"g_try_malloc":alloc,"_libmsi_string_id":sid,"write_stream_data":wr,"g_log":lambda I,a:None}
    H=loops_with(P,F,lambda I:I.op=="call" and P.callname(F,I)=="_libmsi_string_id"); ctx.need(len(H)==1,"the loop that stores the strings"); h=H[0]
    env={("a",i):(("ARG",i),0) for i in range(3)}
    # header and start
    for long,mc in((0,V([("mc",i,0) for i in range(16)]+[0]*16,1)),(1,V([("mc",i,0) for i in range(32)],0x10000))):
        cp=V([("cp",i,0) for i in range(31)]+[0],1)
        es,R=enter(P,F,h,env,mkcalls(1000,400),loadhook(fld,mf,3,maxcount=mc,cp=cp)); ctx.need(es,"the loop that stores the strings is not entered")
        for e,w in es:
            ctx.count("cases"); s=stored(w,"POOL"); loc=next((P.loc(i) for v,i in s.values()),loc0)
            want=[V(cp.b[8*j:8*j+8]) for j in range(3)]+[V(list(cp.b[24:31])+[1 if long else 0])]
            for j in range(4):
                if j not in s or not bits_eq(s[j][0],want[j],8): ctx.find("header:%d"%j,loc,"byte %d of the header is not that of the codepage%s"%(j," and the mark of long references" if j==3 else ""))
            o=stored(w,("ARG",2)); v=o.get(0)
            ctx.ok("%s: header"%loc)
            if not v or k(v[0])!=(3 if long else 2): ctx.find("width",loc,"the width of references is %s for %s"%(k(v[0]) if v else None,"more than 65535 strings" if long else "at most 65535 strings"))
    es,R=enter(P,F,h,env,mkcalls(1000,400),loadhook(fld,mf,3)); e0=es[0][0]
    kinds={"unused":(C(0,16),None),"empty":(V([("r",i,0) for i in range(16)],1),C(0)),"short":(V([("r",i,0) for i in range(16)],1),V([("z",i,0) for i in range(16)]+[0]*16,1)),
      "long":(V([("r",i,0) for i in range(16)],1),V([("z",i,0) for i in range(32)],0x10000))}
    def trial(ro):
        fs=[]; cnt=0
        for kind,(ref,sz) in kinds.items():
            for used0 in(0,11):
                if used0: sz2=sz if kind in("unused","empty") else C(0x123) if kind=="short" else C(0x12345)
                else: sz2=sz
                e=dict(e0)
                for n,x in(("i",7),("n",3),("used",used0)): e[ro[n][0].id]=ro[n][1](x)
                cnt+=1; done=0; loc=loc0
                ds=1<<30 if used0 else 0xffffffff; m=dict(e0["mem"])
                for a in m:
                    if k(m[a])==1000 and isinstance(a[0],tuple) and a[0][0]=="al": m[a]=C(ds)
                for kd,b,v,e2,w in step(P,F,h,e,mkcalls(1000,400,sz2),loadhook(fld,mf,3,ref=ref,nonref=sym("nr",16,16)),m):
                    if kd=="ret":
                        if k(v)==0: fs.append(("save:%s:left"%kind,loc0,"storing stops at a string that is %s"%kind))
                        continue
                    done+=1; s=stored(w,"POOL"); loc=next((P.loc(i) for v,i in s.values()),loc0); at=7
                    ids=events(w,"id")
                    if kind!="unused" and (len(ids)!=1 or ids[0][0]!=3 or ids[0][1]!=("DATA",used0)): fs.append(("save:%s:id"%kind,loc,"the text stored for id 3 is that of %s, to %s"%(ids[0] if ids else "none",used0)))
                    if kind in("unused","empty"): want=[C(0,8)]*4; adv=(1,1,0)
                    else:
                        want=[V(sz2.b[0:8]),V(sz2.b[8:16]),V(ref.b[0:8]),V(ref.b[8:16])]; adv=(1,1,None)
                        if kind=="long": want=[C(0,8),C(0,8),V(sz2.b[16:24]),V(sz2.b[24:32])]+want; adv=(2,1,None)
                    for j,x in enumerate(want):
                        g=s.get(28+j)
                        if g is None or not bits_eq(g[0],x,8): fs.append(("save:%s:%d"%(kind,j),P.loc(g[1]) if g else loc,"byte %d of the entry of a string that is %s is not as the format has it"%(j,kind)))
                    if any(not 28<=j<28+len(want) for j in s): fs.append(("save:%s:out"%kind,loc,"a byte outside of the entry is overwritten"))
                    for n,x,base in(("i",adv[0],7),("n",adv[1],3)):
                        g=ro[n][2](e2.get(ro[n][0].id))
                        if g!=base+x: fs.append(("save:%s:next-%s"%(kind,n),loc,"after a string that is %s, storing goes on at %s %s instead of %d"%(kind,"entry" if n=="i" else "string",g,base+x)))
                    u=e2.get(ro["used"][0].id); g=ro["used"][2](u)
                    if adv[2]==0: good=g==used0
                    elif used0: good=g==used0+k(sz2)
                    else: good=bits_eq(u,sz2,32) if isinstance(u,V) else True
                    if not good: fs.append(("save:%s:used"%kind,loc,"after a string that is %s, the text of the next goes to the wrong place"%kind))
                if not done: fs.append(("save:%s:none"%kind,loc0,"a string that is %s cannot be stored"%kind))
        # last string and end
        for n,inside in((19,True),(20,False)):
            e=dict(e0); cnt+=1
            for r,x in(("i",7),("n",n),("used",1000)): e[ro[r][0].id]=ro[r][1](x)
            outs=step(P,F,h,e,mkcalls(1000,400,C(0)),loadhook(fld,mf,n,ref=C(0,16),nonref=C(0,16)),e0["mem"])
            if inside!=any(o[0]=="back" for o in outs): fs.append(("save:end",loc0,"string %d of 20 is %s"%(n,"not stored" if inside else "stored although it does not exist")))
            if not inside:
                oks=[o for o in outs if o[0]=="ret" and k(o[2])==0]
                if not oks: fs.append(("save:end:ok",loc0,"a complete pool is not saved"))
                for o in oks:
                    ev={(P.cstr(x[0][0]) if isinstance(x[0],tuple) else None):x for x in events(o[4],"write")}
                    if ev.get("_StringData",(0,0,0))[1:]!=(("DATA",0),1000): fs.append(("save:data",loc0,"the text of the strings is not what is written as string data"))
                    if ev.get("_StringPool",(0,0,0))[1:]!=(("POOL",0),400): fs.append(("save:pool",loc0,"the entries are not what is written as string pool"))
        return fs,cnt
    best(ctx,[trial(ro) for ro in roles(P,F,h,e0,{"i":(1,4,"POOL"),"n":(1,1,None),"used":(0,1,"DATA")})],"stores the strings")
    total(ctx,P,fld,mf,kinds)
def total(ctx,P,fld,mf,kinds):
    F=ctx.need(P.fn("string_totalsize"),"string_totalsize not found"); ctx.fns([F.src]); loc0=P.loc(F.blocks[0].insts[0])
    def calls(sz): 
        def conv(I,a,m,w):
            w.append((("event","conv"),a[0],I)); p=next((x for x in a[2:] if isinstance(x,tuple) and isinstance(x[0],tuple) and x[0][0]=="al"),None)
            if p: m[p]=sz
            return ("CONV",0)
        return {"g_convert_with_iconv":conv,"g_convert":conv,"g_log":lambda I,a:None,"gsf_msole_iconv_open_codepage_for_export":lambda I,a:("IC",0),"g_iconv_close":lambda I,a:None,"free":lambda I,a:None,"g_free":lambda I,a:None,"gsf_msole_iconv_win_codepage":lambda I,a:sym("wcp",31,32,1)}
    H=loops_with(P,F,lambda I:I.op=="call" and P.callname(F,I) in("g_convert_with_iconv","g_convert")); ctx.need(len(H)==1,"the loop that sizes the strings"); h=H[0]
    ps=[i for i,t in enumerate(F.params) if t=="ptr"]; ctx.need(len(ps)==3,"parameters of string_totalsize")
    env={("a",0):(("ARG",0),0),("a",1):("DS",0),("a",2):("PS",0)}
    es,R=enter(P,F,h,env,calls(C(0,64)),loadhook(fld,mf,3,ref=sym("r",16,16),nonref=sym("q",16,16))); ctx.need(es,"the loop that sizes the strings is not entered")
    e0=es[0][0]; m0=dict(e0["mem"])
    # memory cells, or variables stored at the end
    def cell(e,m,a): return m.get(a)
    if k(m0.get(("PS",0)))!=4 or k(m0.get(("DS",0)))!=0:
        if ("PS",0) in m0 or ("DS",0) in m0: ctx.find("size:start",loc0,"the sizes start at %s and %s instead of 4 and 0"%(k(m0.get(("PS",0))),k(m0.get(("DS",0)))))
    incell=("PS",0) in m0 and ("DS",0) in m0
    def trial(ro):
        fs=[]; cnt=0
        for kind,(ref,_) in kinds.items():
            sz=C({"unused":0,"empty":0,"short":0x1234,"long":0x12345}[kind],64)
            for edge in((None,) if kind!="short" and kind!="long" else (None,0xffff) if kind=="short" else (None,0x10000)):
                z=C(edge,64) if edge else sz
                e=dict(e0); cnt+=1; m=dict(m0); e[ro["n"][0].id]=ro["n"][1](3)
                if incell: m[("PS",0)]=C(100); m[("DS",0)]=C(50)
                else:
                    e[ro["ps"][0].id]=ro["ps"][1](100); e[ro["ds"][0].id]=ro["ds"][1](50)
                for I in phis(F,h):
                    if I.id not in {x[0].id for x in ro.values()} and isinstance(e0.get(I.id),V): e[I.id]=e0[I.id]
                done=0
                for kd,b,v,e2,w in step(P,F,h,e,calls(z),loadhook(fld,mf,3,ref=ref,nonref=sym("q",16,16)),m):
                    if kd!="back": continue
                    done+=1
                    if incell: mm=e2.get("mem",{}); gp,gd=k(mm.get(("PS",0))),k(mm.get(("DS",0)))
                    else: gp,gd=ro["ps"][2](e2.get(ro["ps"][0].id)),ro["ds"][2](e2.get(ro["ds"][0].id))
                    wp=100+(8 if kind=="long" else 4); wd=50+k(z)
                    cv=events(w,"conv")
                    if kind!="unused" and cv!=[("STRN",0)]: fs.append(("size:%s:text"%kind,loc0,"the text that is sized is not that of the string"))
                    if kind=="unused" and cv: pass
                    if gp!=wp: fs.append(("size:%s:pool"%kind,loc0,"%s bytes are set aside for the entry of a string that is %s, not %d"%(gp-100 if gp else gp,kind,wp-100)))
                    if gd!=wd: fs.append(("size:%s:data"%kind,loc0,"%s bytes are set aside for the text of a string that is %s, not %d"%(gd-50 if gd else gd,kind,wd-50)))
                    g=ro["n"][2](e2.get(ro["n"][0].id))
                    if g!=4: fs.append(("size:%s:next"%kind,loc0,"a string is left out after one that is %s"%kind))
                if not done: fs.append(("size:%s:none"%kind,loc0,"a string that is %s is not sized"%kind))
        for n,inside in((19,True),(20,False)):
            e=dict(e0); e[ro["n"][0].id]=ro["n"][1](n); cnt+=1
            outs=step(P,F,h,e,calls(C(0,64)),loadhook(fld,mf,n,ref=C(0,16)),dict(m0))
            if inside!=any(o[0]=="back" for o in outs): fs.append(("size:end",loc0,"string %d of 20 is %s"%(n,"left out" if inside else "counted although it does not exist")))
        return fs,cnt
    want={"n":(1,1,None)}
    if not incell: want.update({"ps":(4,1,None),"ds":(0,1,None)})
    best(ctx,[trial(ro) for ro in roles(P,F,h,e0,want)],"sizes the strings")
def load(ctx,P,fld,mf):
    F=ctx.need(P.fn("msi_load_string_table"),"msi_load_string_table not found"); ctx.fns([F.src]); loc0=P.loc(F.blocks[0].insts[0])
    def mkcalls(ps,ds):
        def rd(I,a,m,w):
            n=P.cstr(a[1][0]) if isinstance(a[1],tuple) else None
            if isinstance(a[2],tuple): m[a[2]]=({"_StringPool":"POOL","_StringData":"DATA"}.get(n,"?"),0)
            if isinstance(a[3],tuple): m[a[3]]=C({"_StringPool":ps,"_StringData":ds}.get(n,0))
            return C(0)
        def add(I,a,m,w): w.append((("event","add"),a[1:],I)); return a[1]
        def init(I,a,m,w): w.append((("event","init"),a,I)); return ("ST",0)
        return {"read_stream_data":rd,"msi_addstring":add,"init_stringtable":init,"g_log":lambda I,a:None,"free":lambda I,a:None}
    H=loops_with(P,F,lambda I:I.op=="call" and P.callname(F,I)=="msi_addstring"); ctx.need(len(H)==1,"the loop that reads the strings"); h=H[0]
    env={("a",i):(("ARG",i),0) for i in range(2)}
    def pool(d):
        def f(p,I,w,m):
            if p[0]=="POOL" and isinstance(p[1],int):
                if w==16: return d.get(p[1])
                if w==8:
                    v=d.get(p[1]&~1); return V(v.b[8*(p[1]&1):8*(p[1]&1)+8]) if v else None
                if w==32:
                    a,b=d.get(p[1]),d.get(p[1]+2)
                    return V(a.b[:16]+b.b[:16]) if a and b else None
            return None
        return f
    for long in(0,1):
        hd={0:sym("w0",16,16),2:V([("w1",i,0) for i in range(15)]+[long])}
        es,_=enter(P,F,h,env,mkcalls(80,1000),pool(hd)); ctx.need(es,"the loop that reads the strings is not entered")
        for e,w in es:
            ctx.count("cases"); a=events(w,"init"); loc=next((P.loc(i) for x,v,i in w if x==("event","init")),loc0); ctx.ok("%s: header"%loc)
            if not a or k(a[0][0])!=20: ctx.find("load:count",loc,"a pool of 20 entries gets room for %s"%(k(a[0][0]) if a else None))
            if not a or not bits_eq(a[0][1],V([("w0",i,0) for i in range(16)]+[("w1",i,0) for i in range(15)]+[0]),32): ctx.find("load:codepage",loc,"the codepage is not what the header holds")
            v=stored(w,("ARG",1)).get(0)
            if not v or k(v[0])!=(3 if long else 2): ctx.find("load:width",loc,"the width of references is %s although the mark of long ones is %sset"%(k(v[0]) if v else None,"" if long else "not "))
    hd={0:C(0,16),2:C(0,16)}
    es,_=enter(P,F,h,env,mkcalls(80,1000),pool(hd)); e0=es[0][0]
    R16=V([("r",i,0) for i in range(16)],1); Z16=V([("z",i,0) for i in range(16)],1); LO=sym("z",16,16); HI=V([("h",i,0) for i in range(16)],1)
    def trial(ro):
        fs=[]; cnt=0
        def go(i,n,off,ent,ds,name):
            e=dict(e0); m=dict(e0["mem"])
            for a in m:
                if k(m[a])==1000 and isinstance(a[0],tuple) and a[0][0]=="al": m[a]=C(ds)
            for r,x in(("i",i),("n",n),("off",off)): e[ro[r][0].id]=ro[r][1](x)
            d={}
            for j,x in enumerate(ent): d[4*i+2*j]=x
            return step(P,F,h,e,mkcalls(80,1000),pool(d),m)
        # kind: words, length, references, entries taken
        L32=V([("z",i,0) for i in range(16)]+[("h",i,0) for i in range(16)])
        for kind,ent,ln,rf,adv in(("unused",[C(0,16)]*2,None,None,1),("short",[Z16,R16],Z16,R16,1),("short, not counted",[Z16,C(0,16)],Z16,C(0,16),1),("long",[C(0,16),HI,LO,R16],L32,R16,2)):
            for off in(0,11):
                ds=0xffffffff if off==0 else 0x30000; en=ent; l2=ln
                if off and ln is not None:
                    en=[C(0x123,16),R16] if kind[:5]=="short" else [C(0,16),C(1,16),C(0x2345,16),R16]; l2=C(0x123 if kind[:5]=="short" else 0x12345)
                    if kind!="short" and kind!="long": en=[C(0x123,16),C(0,16)]
                cnt+=1; done=0
                for kd,b,v,e2,w in go(7,3,off,en,ds,kind):
                    if kd!="back": 
                        if l2 is None: fs.append(("load:%s:left"%kind,loc0,"reading stops at a string that is %s"%kind))
                        continue
                    done+=1; ev=events(w,"add"); loc=next((P.loc(i) for x,v_,i in w if x==("event","add")),loc0)
                    if l2 is None:
                        if ev: fs.append(("load:unused",loc,"an unused entry is read as a string"))
                    else:
                        good=len(ev)==1 and k(ev[0][0])==3 and ev[0][1]==("DATA",off) and bits_eq(ev[0][2],V((list(l2.b)+[0]*16)[:32]),32) and bits_eq(ev[0][3],rf,16)
                        if not good:
                            a=ev[0] if ev else [None]*4
                            t="its id" if not ev or k(a[0])!=3 else "its text" if a[1]!=("DATA",off) else "its length" if not bits_eq(a[2],V((list(l2.b)+[0]*16)[:32]),32) else "its count"
                            fs.append(("load:%s:%s"%(kind,t),loc,"of a string that is %s, %s is not read as it was stored"%(kind,t)))
                    for r,x in(("i",7+adv),("n",4)):
                        g=ro[r][2](e2.get(ro[r][0].id))
                        if g!=x: fs.append(("load:%s:next-%s"%(kind,r),loc,"after a string that is %s, reading goes on with %s %s instead of %d"%(kind,"entry" if r=="i" else "id",g,x)))
                    u=e2.get(ro["off"][0].id)
                    if l2 is None: good=ro["off"][2](u)==off
                    elif off: good=ro["off"][2](u)==off+k(l2)
                    else: good=bits_eq(u,V((list(l2.b)+[0]*16)[:32]),32) if isinstance(u,V) else True
                    if not good: fs.append(("load:%s:offset"%kind,loc,"after a string that is %s, the text of the next is read from the wrong place"%kind))
                if not done: fs.append(("load:%s:none"%kind,loc0,"a string that is %s is not read"%kind))
        # text outside of the data is never used
        for ln,ds,off,inside in((9,20,11,True),(10,20,11,False),(1,20,20,False),(0xfffffff8,20,11,False),(0x10009,0x10020,0x11,True),(0x10010,0x10020,0x11,False)):
            cnt+=1; ent=[C(ln,16),C(1,16)] if ln<0x10000 else [C(0,16),C(ln>>16,16),C(ln&0xffff,16),C(1,16)]
            used=any(events(w,"add") for kd,b,v,e2,w in go(7,3,off,ent,ds,"bound"))
            if used and not inside: fs.append(("load:bound",loc0,"a text of %d bytes at %d is taken from data of %d bytes"%(ln,off,ds)))
            if inside and not used: fs.append(("load:bound:tight",loc0,"a text of %d bytes at %d of %d bytes of data is refused"%(ln,off,ds)))
        for i,ent,inside in((19,[C(5,16),C(1,16)],True),(19,[C(0,16),C(1,16),C(5,16),C(1,16)],False),(18,[C(0,16),C(1,16),C(5,16),C(1,16)],True),(20,[C(5,16),C(1,16)],False)):
            cnt+=1; used=any(events(w,"add") for kd,b,v,e2,w in go(i,i,0,ent,0x20000,"end"))
            if used!=inside: fs.append(("load:end",loc0,"entry %d of 20 is %s"%(i,"not read" if inside else "read although it is not there")))
        return fs,cnt
    best(ctx,[trial(ro) for ro in roles(P,F,h,e0,{"i":(1,4,"POOL"),"n":(1,1,None),"off":(0,1,"DATA")})],"reads the strings")
def search(ctx,P,fld,mf):
    for fn in("_libmsi_id_from_string_utf8","find_insert_index"):
        F=ctx.need(P.fn(fn),"%s not found"%fn); ctx.fns([fn]); loc0=P.loc(F.blocks[0].insts[0])
        H=loops_with(P,F,lambda I:I.op=="call" and P.callname(F,I)=="strcmp"); ctx.need(len(H)==1,"the search loop of %s"%fn); h=H[0]
        new=("KEY",0)
        def hook(p,I,w,m):
            if own(p,fld["sortcount"]): return C(30)
            if own(p,fld["strings"]): return ("STRINGS",0)
            if own(p,fld["sorted"]): return ("SORTED",0)
            if p[0]=="SORTED" and isinstance(p[1],int) and p[1]%4==0: return C(1000+p[1]//4)
            i=index(p,mf["str"])
            if i is not None: return new if i==77 else ("T",i)
            return None
        def calls(r):
            def cmp(I,a,m,w):
                w.append((("event","cmp"),tuple(a[:2]),I))
                for x,y,s in((0,1,1),(1,0,-1)):
                    if a[x]==new and isinstance(a[y],tuple) and a[y][0]=="T": return C(r*s)
                return top(32)
            return {"strcmp":cmp}
        pi=[i for i,t in enumerate(F.params) if t=="ptr"]
        env={("a",0):(("ARG",0),0),("a",1):new if F.params[1]=="ptr" else C(77),("a",2):("ID",0)}
        es,R=enter(P,F,h,env,calls(0),hook); ctx.need(es,"the search loop of %s is not entered"%fn); e0=es[0][0]
        def trial(ro):
            fs=[]; cnt=0; lo,hi=ro["low"],ro["high"]
            for a,b in((4,10),(7,7),(6,7),(0,0)):
                for r in(-1,0,1):
                    e=dict(e0); e[lo[0].id]=lo[1](a); e[hi[0].id]=hi[1](b); cnt+=1; mid=(a+b)//2
                    for kd,bb,v,e2,w in step(P,F,h,e,calls(r),hook,e0["mem"]):
                        ev=events(w,"cmp"); got=[x for t in ev for x in t if isinstance(x,tuple) and x[0]=="T"]
                        if not got or got[0][1]<1000+a or got[0][1]>1000+b: fs.append(("%s:probe"%fn,loc0,"the search of %d..%d looks at %s"%(a,b,got))); continue
                        mid=got[0][1]-1000
                        if r==0:
                            if kd!="ret": fs.append(("%s:hit"%fn,loc0,"a string that is there is not found"))
                            elif fn=="find_insert_index":
                                if k(v)!=0xffffffff: fs.append(("%s:hit"%fn,loc0,"a string that is in the index already is inserted again"))
                            else:
                                s=next((x for x_,x,i in w if x_==("ID",0)),None)
                                if k(v)!=0 or k(s)!=1000+mid: fs.append(("%s:hit"%fn,loc0,"the id given for a string is not its own"))
                        else:
                            na,nb=(a,mid-1) if r<0 else (mid+1,b)
                            if kd=="back":
                                g=(lo[2](e2.get(lo[0].id)),hi[2](e2.get(hi[0].id)))
                                if g!=(na,nb&0xffffffff): fs.append(("%s:next"%fn,loc0,"a string that sorts %s entry %d of %d..%d is searched in %s"%("before" if r<0 else "after",mid,a,b,g)))
                            else: fs.append(("%s:gone"%fn,loc0,"the search ends early"))
            # nothing left to look at
            for a in(0,5):
                e=dict(e0); e[lo[0].id]=lo[1](a); e[hi[0].id]=hi[1](a-1); cnt+=1
                for kd,bb,v,e2,w in step(P,F,h,e,calls(0),hook,e0["mem"]):
                    if kd!="ret" or events(w,"cmp"): fs.append(("%s:empty"%fn,loc0,"the search goes on with nothing left")); continue
                    if fn=="find_insert_index":
                        if k(v)!=a: fs.append(("%s:place"%fn,loc0,"a new string is put at %s instead of %d"%(k(v),a)))
                    elif k(v)==0: fs.append(("%s:miss"%fn,loc0,"a string that is not there is found"))
            return fs,cnt
        best(ctx,[trial(ro) for ro in roles(P,F,h,e0,{"low":(0,1,None),"high":(29,1,None)})],"searches the strings")
    F=ctx.need(P.fn("insert_string_sorted"),"insert_string_sorted not found"); ctx.fns([F.src]); loc0=P.loc(F.blocks[0].insts[0])
    for pos in(0,4,9,-1):
        def mv(I,a,m,w): w.append((("event","move"),(a[0],a[1],k(a[2])),I)); return a[0]
        def hook(p,I,w,m):
            if own(p,fld["sorted"]): return ("SORTED",0)
            if own(p,fld["sortcount"]): return C(9)
            return None
        R=Region(P,F,{},{"find_insert_index":lambda I,a:C(pos),"memmove":mv,"llvm.memmove.p0.p0.i64":mv},4000,hook)
        for kd,b,v,e,w in R.run(0,{("a",0):("ST",0),("a",1):C(77)}):
            ctx.count("cases"); ms=events(w,"move"); s=stored(w,"SORTED"); cnt=[v for a,v,I in w if isinstance(a,tuple) and len(a)==2 and own(a,fld["sortcount"])]
            if pos<0:
                if w: ctx.find("sorted:again",loc0,"a string that is in the index already changes it")
                continue
            if 9-pos and ms!=[(("SORTED",4*pos+4),("SORTED",4*pos),4*(9-pos))]: ctx.find("sorted:shift",loc0,"the %d strings that sort after the new one are not moved up by one"%(9-pos))
            if k(s.get(4*pos,(None,))[0])!=77 : ctx.find("sorted:put",loc0,"the new string is not put into its place of the index")
            if [k(x) for x in cnt]!=[10]: ctx.find("sorted:count",loc0,"the index does not grow by one")
def entry(ctx,P,fld,mf):
    """looking up an id, turning it into stored text, counting references"""
    F=ctx.need(P.fn("msi_string_lookup_id"),"msi_string_lookup_id not found"); ctx.fns([F.src]); loc0=P.loc(F.blocks[0].insts[0])
    nz=lambda n:V([(n,i,0) for i in range(16)],1)
    for i,r,q,want in((0,C(0,16),C(0,16),"empty"),(3,nz("r"),C(0,16),"own"),(3,C(0,16),nz("q"),"own"),(3,nz("r"),nz("q"),"own"),(3,C(0,16),C(0,16),"none"),(20,nz("r"),nz("r"),"none"),(19,nz("r"),C(0,16),"own")):
        for kd,b,v,e,w in Region(P,F,{},{},4000,loadhook(fld,mf,i,ref=r,nonref=q)).run(0,{("a",0):("ST",0),("a",1):C(i)}):
            ctx.count("cases"); got="none" if v==("null",0) else "own" if v==("STRN",0) else "empty" if isinstance(v,tuple) and P.cstr(v[0])=="" else "other"
            if got!=want: ctx.find("lookup",loc0,"looking up id %d of 20 gives %s text instead of %s"%(i,got,want))
    F=ctx.need(P.fn("_libmsi_string_id"),"_libmsi_string_id not found"); ctx.fns([F.src]); loc0=P.loc(F.blocks[0].insts[0])
    for room,ln,ok in((100,40,True),(40,40,True),(39,40,False)):
        def conv(I,a,m,w):
            w.append((("event","conv"),a[0],I)); p=next((x for x in a[2:] if isinstance(x,tuple) and isinstance(x[0],tuple) and x[0][0]=="al"),None)
            if p: m[p]=C(ln,64)
            return ("CONV",0)
        def cpy(I,a,m,w): w.append((("event","copy"),(a[0],a[1],k(a[2])),I)); return a[0]
        cs={"msi_string_lookup_id":lambda I,a:("STRN",0) if k(a[1])==3 else ("WRONG",0),"g_convert_with_iconv":conv,"g_convert":conv,"memcpy":cpy,"llvm.memcpy.p0.p0.i64":cpy,"free":lambda I,a:None,"g_free":lambda I,a:None,"g_iconv_close":lambda I,a:None,"gsf_msole_iconv_open_codepage_for_export":lambda I,a:("IC",0),"gsf_msole_iconv_win_codepage":lambda I,a:sym("wcp",31,32,1)}
        for kd,b,v,e,w in Region(P,F,{("SZ",0):C(room)},cs,4000,loadhook(fld,mf,3)).run(0,{("a",0):("ST",0),("a",1):C(3),("a",2):("BUF",0),("a",3):("SZ",0)}):
            ctx.count("cases"); s=[k(v) for a,v,I in w if a==("SZ",0)]; cp=events(w,"copy"); cv=events(w,"conv")
            if cv!=[("STRN",0)]: ctx.find("text:which",loc0,"the text converted is not that of the id")
            if ok and (k(v)!=0 or cp!=[(("BUF",0),("CONV",0),ln)] or s[-1:]!=[ln]): ctx.find("text:copy",loc0,"the text of an id is not stored whole: %s, %s bytes reported"%(cp,s))
            if not ok and (k(v)==0 or cp): ctx.find("text:room",loc0,"a text of %d bytes is stored in %d"%(ln,room))
    en=P.enum("StringPersistent")
    def field(a):
        for n in("persistent_refcount","nonpersistent_refcount","str"):
            x=index(a,mf[n])
            if x is not None: return x,n
        if isinstance(a,tuple) and a[1]==0 and isinstance(a[0],tuple) and len(a[0])==3 and a[0][1]=="at" and a[0][0]==("STRINGS",0): return a[0][2],next(iter(mf))
        return None
    NM={0:"nonpersistent_refcount",1:"persistent_refcount"}
    # a string that is there is counted once more; one that is not gets a free id and its own text
    F=ctx.need(P.fn("_libmsi_add_string"),"_libmsi_add_string not found"); ctx.fns([F.src]); loc0=P.loc(F.blocks[0].insts[0])
    for old,add,want in((1,2,3),(0xfff0,0xf,0xffff),(0xfff0,0x10,0xffff),(0xffff,1,0xffff),(5,0,5)):
        for pers in(0,1):
            def look(I,a,m,w):
                if isinstance(a[2],tuple): m[a[2]]=C(3)
                return C(0)
            def hook(q,I,w,m):
                if own(q,fld["strings"]): return ("STRINGS",0)
                f=field(q)
                if f and w==16: return C(old,16) if f==(3,NM[pers]) else C(9,16)
                if q==("KEY",0): return C(65,8)
                return None
            for kd,b,v,e,w in Region(P,F,{},{"_libmsi_id_from_string_utf8":look},4000,hook).run(0,{("a",0):("ST",0),("a",1):("KEY",0),("a",2):C(-1),("a",3):C(add,16),("a",4):C(en if pers else 1-en)}):
                ctx.count("cases"); st=[(field(a),k(v)) for a,v,I in w if isinstance(a,tuple) and len(a)==2 and field(a)]
                if st!=[((3,NM[pers]),want)]: ctx.find("refs",loc0,"adding %d to a count of %d gives %s instead of %d"%(add,old,st,want))
                if k(v)!=3: ctx.find("refs:id",loc0,"a string that is there gets the id %s instead of its own"%k(v))
    for ln,n in((-1,11),(4,4),(0,0)):
        ev=lambda w,n:events(w,n)
        def cpy(I,a,m,w): w.append((("event","copy"),(a[0],a[1],k(a[2])),I)); return a[0]
        def setst(I,a,m,w): w.append((("event","set"),(k(a[1]),a[2],k(a[3]),k(a[4])),I)); return None
        def alloc(I,a,m,w): w.append((("event","alloc"),k(a[0]),I)); return ("NEW",0)
        cs={"_libmsi_id_from_string_utf8":lambda I,a:C(1),"st_find_free_entry":lambda I,a:C(7),"strlen":lambda I,a:C(11,64),"malloc":alloc,"memcpy":cpy,"llvm.memcpy.p0.p0.i64":cpy,"set_st_entry":setst}
        hk=lambda q,I,w,m:C(65,8) if q==("KEY",0) else None
        got=0
        for kd,b,v,e,w in Region(P,F,{},cs,4000,hk).run(0,{("a",0):("ST",0),("a",1):("KEY",0),("a",2):C(ln),("a",3):C(2,16),("a",4):C(en)}):
            if k(v)==0xffffffff and not events(w,"set"): continue
            got+=1; ctx.count("cases"); s=stored(w,"NEW")
            if events(w,"set")!=[(7,("NEW",0),2,en)] or k(v)!=7: ctx.find("add:entry",loc0,"a new string is not entered, with its count, under the id that was free")
            if any(x<n+1 for x in events(w,"alloc")): ctx.find("add:room",loc0,"there is no room for a text of %d bytes and its end"%n)
            if events(w,"copy")!=[(("NEW",0),("KEY",0),n)] or n not in s or k(s[n][0])!=0: ctx.find("add:text",loc0,"a new string is not given its text, %d bytes and the end"%n)
        if not got: ctx.find("add:none",loc0,"a new string is not entered")
    F=ctx.need(P.fn("set_st_entry"),"set_st_entry not found"); ctx.fns([F.src]); loc0=P.loc(F.blocks[0].insts[0])
    for pers in(0,1):
        def ins(I,a,m,w): w.append((("event","sort"),k(a[1]),I)); return None
        got=0
        for kd,b,v,e,w in Region(P,F,{},{"insert_string_sorted":ins,"g_return_if_fail_warning":lambda I,a:None},4000,loadhook(fld,mf,7)).run(0,{("a",0):("ST",0),("a",1):C(7),("a",2):("NEW",0),("a",3):sym("rc",16,16),("a",4):C(en if pers else 1-en)}):
            if not w: continue
            got+=1; ctx.count("cases"); d={field(a)[1]:v for a,v,I in w if isinstance(a,tuple) and len(a)==2 and field(a) and field(a)[0]==7}
            if not bits_eq(d.get(NM[pers]),sym("rc",16,16),16) or k(d.get(NM[1-pers]))!=0: ctx.find("set:count",loc0,"the references of a new %s string are not counted as such"%("stored" if pers else "temporary"))
            if d.get("str")!=("NEW",0): ctx.find("set:text",loc0,"a new string does not have its text")
            if events(w,"sort")!=[7]: ctx.find("set:sorted",loc0,"a new string does not get into the index")
            elif max([i for i,(a,v,I) in enumerate(w) if isinstance(a,tuple) and field(a)==(7,"str")] or [-1])>next(i for i,x in enumerate(w) if x[0]==("event","sort")): ctx.find("set:order",loc0,"a new string is put into the index before it has its text")
        if not got: ctx.find("set:none",loc0,"a new string is not entered")
    free(ctx,P,fld,mf,field)
def free(ctx,P,fld,mf,field):
    F=ctx.need(P.fn("st_find_free_entry"),"st_find_free_entry not found"); ctx.fns([F.src]); loc0=P.loc(F.blocks[0].insts[0])
    H=natural_loops(F); ctx.need(H,"the loops of st_find_free_entry")
    nz=lambda n:V([(n,i,0) for i in range(16)],1)
    for h in H:
        for r,q in((nz("r"),nz("q")),(nz("r"),C(0,16)),(C(0,16),nz("q")),(C(0,16),C(0,16))):
            e={("a",0):("ST",0)}; ph=[I for I in phis(F,h) if I.ty=="i32"]; ctx.need(ph,"the id tried by st_find_free_entry")
            for I in ph: e[I.id]=C(3)
            used=k(r)!=0 or k(q)!=0
            for kd,b,v,e2,w in step(P,F,h,e,{},loadhook(fld,mf,3,ref=r,nonref=q),{}):
                ctx.count("cases")
                if kd=="ret" and used: ctx.find("free:used",loc0,"an id that still has %s references is given to another string"%("stored" if k(r)!=0 else "temporary"))
                if kd=="back" and b==h and not used: ctx.find("free:skip",loc0,"a free id is passed over")
    for start in(0,1,2):
        def re_(I,a,m,w): w.append((("event","grow"),(a[0],k(a[1])),I)); return ("GREW",I.id),0
        cs={n:re_ for n in("realloc","g_realloc","g_try_realloc")}; cs["memset"]=cs["llvm.memset.p0.i64"]=lambda I,a,m,w:w.append((("event","zero"),(a[0],k(a[2])),I))
        def hook(p,I,w,m):
            if own(p,fld["maxcount"]): return m.get(p,C(1))
            if own(p,fld["freeslot"]): return m.get(p,C(start))
            return loadhook(fld,mf,1,ref=C(0,16),nonref=C(0,16))(p,I,w,m)
        got=0
        for kd,b,v,e,w in Region(P,F,{},cs,20000,hook).run(0,{("a",0):("ST",0)}):
            if kd!="ret" or k(v)==0xffffffff: continue
            got+=1; ctx.count("cases"); mc=[k(v) for a,v,I in w if isinstance(a,tuple) and len(a)==2 and own(a,fld["maxcount"])]; g=dict((x[0],x[1]) for x in events(w,"grow"))
            if k(v)!=1: ctx.find("grow:id",loc0,"the id given when all are used is %s, not the first of the new ones"%k(v))
            if len(mc)!=1 or mc[0] is None or mc[0]<2: ctx.find("grow:count",loc0,"the pool does not grow"); continue
            z=P.sizes.get("%struct.msistring") or P.sizes.get("struct.msistring") or 16
            if g.get(("STRINGS",0),0)<mc[0]*z or g.get(("SORTED",0),0)<4*mc[0]: ctx.find("grow:room",loc0,"there is not room for all of the %d ids of the pool that grew"%mc[0])
            if events(w,"zero")!=[((next((I.id and ("GREW",I.id) for a,x,I in w if a==("event","grow") and x[0]==("STRINGS",0)),None),z),z*(mc[0]-1))]: ctx.find("grow:zero",loc0,"the new ids of the pool are not all marked as free")
        if not got: ctx.find("grow:none",loc0,"the pool cannot grow")
