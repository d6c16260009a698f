"""One step of a loop, or a straight piece of code, interpreted at the level of bits (engine/bits.py) with chosen inputs."""
from util import *
from bits import *
from loops import natural_loops
def at(*path):
    """address of a field: at(base,("f",struct,idx),...) """
    a=path[0]
    for p in path[1:]: a=((a,)+tuple(p),0)
    return a
def is_field(a,struct,idx):
    """(index of the element,) if the address is that field of an element of an array of structs, or the object's own field"""
    b=a[0]
    if a[1]==0 and isinstance(b,tuple) and len(b)==4 and b[1]=="f" and b[2]==struct and b[3]==idx:
        p=b[0]
        if isinstance(p[0],tuple) and len(p[0])==3 and p[0][1]=="at": return (p[0][2],)
        return (0,)
    return None
def loops_with(P,F,pred):
    L=natural_loops(F)
    return [h for h in L if any(pred(I) for b in L[h][0] for I in F.blocks[b].insts)]
def enter(P,F,h,env,calls,loads=None,mem=None,limit=20000):
    """states (env, writes) in which the loop headed by block h is first entered"""
    R=Region(P,F,dict(mem or {}),calls,limit,loads)
    return [(e,w) for k,b,v,e,w in R.run(0,dict(env),stop=(h,)) if k=="back" and b==h], R
def phis(F,h): return [I for I in F.blocks[h].insts if I.phi is not None]
def step(P,F,h,e,calls,loads=None,mem=None,limit=20000,stop=None):
    """outcomes of one iteration from header h: (kind, block, value, env, events and stores)"""
    R=Region(P,F,dict(mem if mem is not None else e.get("mem",{})),calls,limit,loads)
    e=dict(e); e.pop("mem",None)
    return R.run(h,e,stop=stop or (h,))
def k(v): return v.const() if isinstance(v,V) else None
def bits_eq(a,b,w=None):
    if not isinstance(a,V) or not isinstance(b,V): return False
    n=w or min(len(a.b),len(b.b))
    return a.b[:n]==b.b[:n]
def stored(w,base):
    """bytes stored to an object: offset -> 8-bit vectors, last store wins"""
    out={}
    for a,v,I in w:
        if isinstance(a,tuple) and a[0]==base and len(a)==2 and isinstance(a[1],int):
            if isinstance(v,V):
                for j in range(0,len(v.b),8): out[a[1]+j//8]=(V(v.b[j:j+8]),I)
            else: out[a[1]]=(v,I)
    return out
def events(w,name): return [v for a,v,I in w if a==("event",name)]
