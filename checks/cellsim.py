"""The functions that read, write and lay out table cells, interpreted at the level of bits on tables of every mix of column
kinds; used where the algebraic argument of c19.py does not recognise the form of the code."""
from steps import *
from cmodel import CModel
from recmodel import Objects,flat,struct_off,struct_size
import itertools
STR,BIN,KEY,NUL,VALID=0x800,0x900,0x2000,0x1000,0x100
KIND={"text":VALID|STR|64,"number":VALID|2,"long":VALID|4,"stream":VALID|BIN|NUL}
def width(kind,ref): return {"text":ref,"number":2,"long":4,"stream":2}[kind]
T="_LibmsiTable"; CI="_LibmsiColumnInfo"; INL=("bytes_per_column","msi_table_get_row_size","read_table_int","read_raw_int","table_view_fetch_int","table_view_set_int")
class Tab:
    """a table with columns of the given kinds; rows of symbolic bytes"""
    def __init__(s,P,kinds,rows,flags=None,ref=3,raw=None):
        s.P=P; s.kinds=kinds; s.rows=rows; s.raw=raw; O=s.O=Objects(P)
        s.offs=[]; o=0
        for k_ in kinds: s.offs.append(o); o+=width(k_,3)
        s.size=o
        z=struct_size(P,CI)
        O.o[("heap","cols")]={}
        for i,k_ in enumerate(kinds):
            for f,v in(("type",KIND[k_]),("offset",s.offs[i]),("number",i+1),("ref_count",0),("hash_table",0),("temporary",0)):
                d=struct_off(P,CI,f)
                if d is not None: O.at("cols",i*z+d,v)
        for i in range(rows): O.at("rows",8*i,(("heap","row",i),0)); O.at("flags",i,int((flags or [1]*rows)[i]))
        O.put("db","_LibmsiDatabase",bytes_per_strref=ref)
        O.put("t",T,row_count=rows,col_count=len(kinds),data=(("heap","rows"),0),data_persistent=(("heap","flags"),0),colinfo=(("heap","cols"),0),persistent=1,ref_count=1)
        d=struct_off(P,T,"name")
        for i,c in enumerate(b"Tab\0"): O.at("t",d+i,c)
        O.put("view","_LibmsiTableView",table=(("heap","t"),0),db=(("heap","db"),0),columns=(("heap","cols"),0),num_cols=len(kinds),row_size=s.size)
    def cell(s,i,b):
        """byte b of row i: the high byte of a reference is 0"""
        for k_,o in zip(s.kinds,s.offs):
            if k_=="text" and b==o+2: return C(0,8)
        return sym("r%d.%d"%(i,b),8,8)
    def load(s,p,I,n,m):
        r=flat(s.P,p)
        if r is None: return None
        for q,v in m.items():
            if q!=p and isinstance(q,tuple) and len(q)==2 and flat(s.P,q)==r and not(isinstance(v,V) and n and len(v.b)!=n): return v
        if isinstance(r[0],tuple) and r[0][:2]==("heap","row") and n==8: return s.cell(r[0][2],r[1])
        if r[0]==("heap","raw") and n==8: return sym("raw%d"%r[1],8,8) if 0<=r[1]<s.raw else None
        return s.O.load(p,n)
def run(P,fn,tab,args,calls=None,mem=None):
    F=P.fn(fn); M=CModel(P,calls,tab.load)
    return Region(P,F,dict(mem or {}),M.calls,200000,M.loads,tuple(x for x in INL if x!=fn and P.fn(x))).run(0,{("a",i):a for i,a in enumerate(args)})
def flatmem(P,m):
    out={}
    for q,v in m.items():
        if isinstance(q,tuple) and len(q)==2:
            r=flat(P,q)
            if r:
                if isinstance(v,V) and len(v.b)%8==0:
                    for j in range(0,len(v.b),8): out[r[0],r[1]+j//8]=V(v.b[j:j+8])
                else: out[r]=v
    return out
def lines(P,F,w,base):
    return next((P.loc(I) for a,v,I in w if isinstance(a,tuple) and len(a)==2 and flat(P,a) and flat(P,a)[0]==base),P.loc(F.blocks[0].insts[0]))
def reader(ctx,P,fn,raw):
    """read_table_int / read_raw_int"""
    out=[]; F=P.fn(fn)
    for n in(2,3,4):
        for col in(0,5):
            t=Tab(P,["long"]*3,3,raw=64)
            t.cell=lambda i,b:sym("r%d.%d"%(i,b),8,8)
            res=run(P,fn,t,[(("heap","raw"),0),C(col),C(n)] if raw else [(("heap","rows"),0),C(1),C(col),C(n)]); ctx.count("sinks")
            want=[x for b in range(n) for x in (sym("raw%d"%(col+b),8,8) if raw else sym("r1.%d"%(col+b),8,8)).b]+[0]*(32-8*n)
            if not res or any(not bits_eq(v,V(want),32) for kd,b,v,e,w in res): out.append(("%s:order"%fn,P.loc(F.blocks[0].insts[0]),"the bytes of a cell are not assembled lowest first from its position"))
    return out
def setter(ctx,P):
    fn="table_view_set_int"; out=[]; F=P.fn(fn)
    kinds=["number","text","long","stream"]
    for c,kd_ in enumerate(kinds):
        t=Tab(P,kinds,3); val=sym("val",32); n=width(kd_,3); ctx.count("sinks")
        for kd,b,v,e,w in run(P,fn,t,[(("heap","view"),0),C(1),C(c+1),val]):
            if k(v)!=0: out.append(("%s:all"%fn,P.loc(F.blocks[0].insts[0]),"a cell of a %s column is not stored"%kd_)); continue
            m=flatmem(P,e["mem"]); loc=lines(P,F,w,("heap","row",1)); got={o:x for (b_,o),x in m.items() if b_==("heap","row",1)}
            if any(b_[:2]==("heap","row") and b_[2]!=1 for b_,o in m if isinstance(b_,tuple)): out.append(("%s:row"%fn,loc,"a cell is stored in another row"))
            if sorted(got)!=list(range(t.offs[c],t.offs[c]+n)): out.append(("%s:all"%fn,loc,"not exactly the bytes of the cell are stored"))
            elif any(not bits_eq(got[t.offs[c]+j],V(val.b[8*j:8*j+8]),8) for j in range(n)): out.append(("%s:order"%fn,loc,"a cell is not stored lowest byte first at the position of its column"))
    return out
def fetch(ctx,P):
    fn="table_view_fetch_int"; out=[]; F=P.fn(fn); kinds=["number","text","long","stream"]
    for c,kd_ in enumerate(kinds):
        t=Tab(P,kinds,3); n=width(kd_,3); ctx.count("sinks")
        for kd,b,v,e,w in run(P,fn,t,[(("heap","view"),0),C(1),C(c+1),("OUT",0)]):
            g=e["mem"].get(("OUT",0))
            want=V([x for j in range(n) for x in t.cell(1,t.offs[c]+j).b]+[0]*(32-8*n))
            if k(v)!=0 or not bits_eq(g,want,32): out.append(("%s:place"%fn,P.loc(F.blocks[0].insts[0]),"a cell of a %s column is not read from the position and with the width of its column"%kd_))
    return out
MIXES=[["text"],["number","text","long"],["text","stream","text","number"],["long","text","long"],["stream","number"]]
def rowsizes(ctx,P):
    fn="msi_table_get_row_size"; out=[]; F=P.fn(fn)
    for ks in MIXES+[[]]:
        for ref in(2,3):
            t=Tab(P,ks,1,ref=ref); ctx.count("sinks")
            for kd,b,v,e,w in run(P,fn,t,[(("heap","db"),0),(("heap","cols"),0),C(len(ks)),C(ref)]):
                if k(v)!=sum(width(x,ref) for x in ks): out.append((fn,P.loc(F.blocks[0].insts[0]),"the size of a row of %s columns is %s instead of the sum of their widths"%(", ".join(ks) or "no",k(v))))
    return out
def offsets(ctx,P):
    fn="table_calc_column_offsets"; out=[]; F=P.fn(fn); z=struct_size(P,CI); d=struct_off(P,CI,"offset")
    for ks in MIXES:
        t=Tab(P,ks,1); ctx.count("sinks")
        for i in range(len(ks)): t.O.at("cols",i*z+d,0x7777)
        for kd,b,v,e,w in run(P,fn,t,[(("heap","db"),0),(("heap","cols"),0),C(len(ks))]):
            m={flat(P,q):v2 for q,v2 in e["mem"].items() if isinstance(q,tuple) and len(q)==2}
            for i in range(len(ks)):
                if k(m.get((("heap","cols"),i*z+d)))!=t.offs[i]: out.append((fn,lines(P,F,w,("heap","cols")),"a column is not placed right after the one before it")); break
    return out
def save(ctx,P):
    fn="save_table"; out=[]; F=P.fn(fn); loc0=P.loc(F.blocks[0].insts[0])
    for ks in MIXES:
        for ref in(2,3):
            for flags in((1,1,1),(0,1,1),(1,0,1),(1,1,0),(0,0,1),(0,0,0),(1,)):
                t=Tab(P,ks,len(flags),flags,ref); ctx.count("sinks"); rows=[i for i,f in enumerate(flags) if f]; seen=0
                def wr(I,a,m,w): w.append((("event","write"),(a[2],k(a[3]),dict(m)),I)); return C(0)
                for kd,b,v,e,w in run(P,fn,t,[(("heap","db"),0),(("heap","t"),0),C(ref)],{"write_stream_data":wr}):
                    ev=events(w,"write")
                    if len(ev)!=1: out.append(("save_table:rest",loc0,"a table with %d rows to be saved is not written once"%len(rows))); continue
                    (p,sz,m)=ev[0]; seen+=1; size=sum(width(x,ref) for x in ks)*len(rows); loc=next(P.loc(I) for a,x,I in w if a==("event","write"))
                    if sz!=size: out.append(("save_table:size",loc,"the size of the stream is not that of the saved rows: %s instead of %d"%(sz,size))); continue
                    m=flatmem(P,m); fo=0
                    for c,x in enumerate(ks):
                        n=width(x,ref)
                        for r,i in enumerate(rows):
                            for j in range(n):
                                if not isinstance(p,tuple) or not bits_eq(m.get((p[0],p[1]+fo*len(rows)+r*n+j)),t.cell(i,t.offs[c]+j),8):
                                    out.append(("save_table:cell",lines(P,F,w,p[0] if isinstance(p,tuple) else None),"byte %d of column %d of row %d is not where readers look for it"%(j,c+1,r+1)))
                        fo+=n
                if not seen: out.append(("save_table:rest",loc0,"a table cannot be saved"))
    return out
def load(ctx,P):
    fn="read_table_from_storage"; out=[]; F=P.fn(fn); loc0=P.loc(F.blocks[0].insts[0])
    for ks in MIXES:
        for ref in(2,3):
            for rows in(1,3):
                rs=sum(width(x,ref) for x in ks); t=Tab(P,ks,rows,None,ref,rs*rows); ctx.count("sinks"); seen=0
                for f in("row_count","data","data_persistent"): t.O.o[("heap","t")][struct_off(P,T,f)]=0
                def rd(I,a,m,w): m[a[2]]=(("heap","raw"),0); m[a[3]]=C(rs*rows); return C(0)
                for kd,b,v,e,w in run(P,fn,t,[(("heap","db"),0),(("heap","t"),0),("STG",0)],{"read_stream_data":rd}):
                    if k(v)!=0: continue
                    seen+=1; m=flatmem(P,e["mem"]); g=lambda f:m.get((("heap","t"),struct_off(P,T,f)))
                    rc=[m.get((("heap","t"),struct_off(P,T,"row_count")+j)) for j in range(4)]
                    if None in rc or k(V([x for y in rc for x in y.b]))!=rows: out.append(("read_table_from_storage:rows",loc0,"not all rows of the stream are read")); continue
                    D,Fl=g("data"),g("data_persistent")
                    for i in range(rows):
                        fo=0; rp=m.get((D[0],8*i)) if isinstance(D,tuple) else None
                        if not isinstance(rp,tuple): out.append(("read_table_from_storage:rows",loc0,"a row of the stream is not read")); break
                        if not isinstance(Fl,tuple) or k(m.get((Fl[0],i)))!=1: out.append(("read_table_from_storage:persistent",loc0,"a row that was read is not one to be saved"))
                        loc=lines(P,F,w,rp[0]) 
                        for c,x in enumerate(ks):
                            n=width(x,ref)
                            for j in range(width(x,3)):
                                want=sym("raw%d"%(fo*rows+i*n+j),8,8) if j<n else C(0,8)
                                if not bits_eq(m.get((rp[0],rp[1]+t.offs[c]+j)),want,8): out.append(("read_table_from_storage:cell" if j<n else "read_table_from_storage:extend",loc,"byte %d of column %d of row %d is not taken from where it is stored"%(j,c+1,i+1)))
                            fo+=n
                if not seen: out.append(("read_table_from_storage:rows",loc0,"a table cannot be read"))
    return out
