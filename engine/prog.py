"""Program model over the JSON produced by irdump, with CFG, constants,
call graph (function-pointer slots resolved), field mod/ref summaries."""
import prep, os, sys
from collections import defaultdict
class Inst:
    __slots__=("id","op","ty","a","loc","blk","fn","callee","p","phi","cases","deflt","succ","at","sz","pred","ot","vt","nr","idx")
    def line(self): return self.loc[1] if self.loc else 0
class Block:
    __slots__=("i","insts","succ","pred","term")
class Fn: pass
class Prog:
    def __init__(self,unit,inline=True):
        self.unit=unit
        j=prep.ir(unit,inline)
        self.j=j; self.globals=j["globals"]; self.enums=j["enums"]; self.structs=j["structs"]; self.sizes=j["sizes"]; self.files=j["files"]; self.scopes=j["scopes"]
        self.inlined=j["inlined"]
        self.fns={}; self.decls={}
        for n,f in j["fns"].items():
            if f["decl"]: self.decls[n]=f; continue
            F=Fn(); F.name=n; F.src=f.get("src",n); F.file=f.get("file",""); F.line=f.get("line",0); F.params=f["params"]; F.pn=f["pn"]; F.dit=f.get("dit",[]); F.ret=f["ret"]; F.local=f["local"]; F.at=f["at"]; F.vn={int(k):v for k,v in f["vn"].items()}; F.vararg=f["vararg"]; F.prog=self
            F.blocks=[]; F.insts={}; iid=0
            for bi,b in enumerate(f["b"]):
                B=Block(); B.i=bi; B.insts=[]; B.succ=[]; B.pred=[]
                for k,o in enumerate(b):
                    I=Inst(); I.id=iid; iid+=1; I.idx=k; I.op=o["o"]; I.ty=o["t"]; I.a=[_t(x) for x in o.get("a",[])]; I.blk=bi; I.fn=F
                    l=o.get("l"); I.loc=(self.files[l[0]],l[1],self.scopes[l[3]],l[2]) if l else None
                    I.callee=_t(o["c"]) if "c" in o else None
                    I.p=_t(o["p"]) if "p" in o else None
                    I.phi=[(_t(v),bb) for v,bb in o["phi"]] if "phi" in o else None
                    I.cases=[(v,bb) for v,bb in o["cases"]] if "cases" in o else None
                    I.deflt=o.get("def"); I.succ=o.get("s"); I.at=o.get("at"); I.sz=o.get("sz"); I.pred=o.get("pred"); I.ot=o.get("ot"); I.vt=o.get("vt"); I.nr=o.get("nr",False)
                    B.insts.append(I); F.insts[I.id]=I
                B.term=B.insts[-1]; t=B.term
                if t.op=="br":
                    if t.a and t.a[0][0]=="c": B.succ=[t.succ[0] if t.a[0][1] else t.succ[1]]
                    else: B.succ=list(dict.fromkeys(t.succ))
                elif t.op=="switch": B.succ=list(dict.fromkeys([b for _,b in t.cases]+[t.deflt]))
                F.blocks.append(B)
            # reachability
            seen={0}; st=[0]
            while st:
                x=st.pop()
                for s in F.blocks[x].succ:
                    if s not in seen: seen.add(s); st.append(s)
            F.reach=seen
            for B in F.blocks:
                if B.i in seen:
                    for s in B.succ: F.blocks[s].pred.append(B.i)
            self.fns[n]=F
        self._uses={}
        self._slots=None
        self._modref=None
    def loc(self,I):
        if not I.loc: return "%s:%d (%s)"%(rel(I.fn.file),I.fn.line,I.fn.src)
        return "%s:%d (%s)"%(rel(I.loc[0]),I.loc[1],I.loc[2] or I.fn.src)
    def cstr(self,op):
        """constant C string an operand points to, or None"""
        if op[0]=="ge":
            if any(not(s[0] in"*[" and s[2]==("c",0) or s[0]=="f" and s[2]==0) for s in op[2]): return None
            op=op[1]
        if op[0]!="g": return None
        g=self.globals.get(op[1])
        if not g: return None
        v=g.get("init")
        if not g["const"] and g.get("name"): return None
        return gstr(v)
    def gcstr(self,v):
        """constant string referenced by a constant initialiser element"""
        if isinstance(v,dict) and "op" in v: return self.cstr(_t(v["op"]))
        return None
    def calls(self,F):
        for B in F.blocks:
            if B.i in F.reach:
                for I in B.insts:
                    if I.op=="call": yield I
    def insts(self,F):
        for B in F.blocks:
            if B.i in F.reach:
                for I in B.insts: yield I
    def uses(self,F):
        u=self._uses.get(F.name)
        if u is None:
            u=defaultdict(list)
            for I in self.insts(F):
                for o in operands(I): u[o].append(I) if o[0] in("i","a") else None
            self._uses[F.name]=u
        return u
    # ---- function pointer slots: (struct field) -> functions stored in constant tables
    def slots(self):
        if self._slots is None:
            s=defaultdict(set)
            for n,g in self.globals.items():
                t=g["t"]
                if t.startswith("%struct."):
                    base=t[8:]
                    fl=self.structs.get(base) or self.structs.get(base.lstrip("_")) or self.structs.get(base.rsplit(".",1)[0])
                    v=g.get("init")
                    if isinstance(v,list) and fl and len(fl)==len(v):
                        for (fn,_,_,_),x in zip(fl,v):
                            if isinstance(x,dict) and "op" in x and x["op"][0]=="g" and x["op"][1] in self.fns: s[(base,fn)].add(x["op"][1])
            # stores of functions into fields (class_init, local tables)
            for F in self.fns.values():
                for I in self.insts(F):
                    if I.op=="store" and I.a[0][0]=="g" and I.a[0][1] in self.fns:
                        k=self.fieldkey(F,I.a[1])
                        if k: s[k].add(I.a[0][1])
            self._slots=s
        return self._slots
    def fieldkey(self,F,op):
        """(struct,field) an address operand designates (last field step)"""
        st=None
        if op[0]=="i":
            I=F.insts[op[1]]
            if I.op=="getelementptr": st=I.p
            elif I.op in("bitcast",): return self.fieldkey(F,I.a[0])
        elif op[0]=="ge": st=op[2]
        if st:
            for s in reversed(st):
                if s[0]=="f": return (s[1].replace("%struct.","").replace("%union.",""),s[3])
            # plain pointer arithmetic / array element
        return None
    def callees(self,F,I):
        """resolved callee names (several for a call through a slot)"""
        c=I.callee
        if c[0]=="g": return [c[1]]
        if c[0]=="i":
            L=F.insts[c[1]]
            if L.op=="load":
                k=self.fieldkey(F,L.a[0])
                if k: return sorted(self.slots().get(k,()))
        return []
    def slotname(self,F,I):
        c=I.callee
        if c[0]=="i":
            L=F.insts[c[1]]
            if L.op=="load": return self.fieldkey(F,L.a[0])
        return None
    def callname(self,F,I):
        c=I.callee
        if c[0]=="g":
            n=c[1]
            return self.fns[n].src if n in self.fns else n
        k=self.slotname(F,I)
        if k: return "%s->%s"%k
        return "?"
    # ---- modref
    def modref(self):
        if self._modref is None:
            d={n:set() for n in self.fns}; cg={n:set() for n in self.fns}
            for n,F in self.fns.items():
                for I in self.insts(F):
                    if I.op=="store":
                        k=self.fieldkey(F,I.a[1])
                        if k: d[n].add(k)
                        else: d[n].add(("*",I.vt))
                    elif I.op=="call":
                        for c in self.callees(F,I):
                            if c in self.fns: cg[n].add(c)
                        # callbacks passed as arguments
                        for a in I.a:
                            if a[0]=="g" and a[1] in self.fns: cg[n].add(a[1])
            ch=True
            while ch:
                ch=False
                for n in d:
                    b=len(d[n])
                    for c in cg[n]: d[n]|=d[c]
                    if len(d[n])!=b: ch=True
            self._modref=d; self.cg=cg
        return self._modref
    def callgraph(self):
        self.modref(); return self.cg
    def reachable(self,roots):
        cg=self.callgraph(); seen=set(); st=[r for r in roots if r in self.fns]
        while st:
            x=st.pop()
            if x in seen: continue
            seen.add(x); st+=list(cg[x])
        return seen
    def callers(self):
        if not hasattr(self,"_callers"):
            r=defaultdict(list)
            for n,F in self.fns.items():
                for I in self.calls(F):
                    for c in self.callees(F,I): r[c].append((F,I))
            self._callers=r
        return self._callers
    def fn(self,src):
        """function by its source name"""
        if src in self.fns: return self.fns[src]
        for F in self.fns.values():
            if F.src==src: return F
        return None
    def enum(self,name):
        """value of an enumerator, searched over all enums"""
        if not hasattr(self,"_en"):
            self._en={}
            for e,v in self.enums.items():
                for k,x in v.items(): self._en[k]=x
        return self._en[name]
def gstr(v):
    if isinstance(v,dict) and "s" in v: return v["s"].split("\0")[0]
    if isinstance(v,dict) and "zero" in v: return ""
    if isinstance(v,list) and v and all(isinstance(x,int) for x in v): return bytes(x&255 for x in v).split(b"\0")[0].decode("latin-1")
    return None
def _t(x):
    if isinstance(x,list): return tuple(_t(y) for y in x)
    return x
def rel(f):
    f=f or ""
    if f.startswith(prep.REPO+"/"): return f[len(prep.REPO)+1:]
    if f.startswith(prep.CACHE) or "vp-ir-" in f: return "generated:"+os.path.basename(f)
    return f
def operands(I):
    for o in I.a: yield o
    if I.callee: yield I.callee
    if I.p:
        for s in I.p:
            if s[0] in("*","["): yield s[2]
    if I.phi:
        for v,_ in I.phi: yield v
def dominators(F):
    """block dominator sets"""
    if hasattr(F,"_dom"): return F._dom
    n=F.reach; dom={b:set(n) for b in n}; dom[0]={0}
    order=rpo(F); ch=True
    while ch:
        ch=False
        for b in order:
            if b==0: continue
            ps=[p for p in F.blocks[b].pred]
            x=set.intersection(*[dom[p] for p in ps]) if ps else set()
            x=x|{b}
            if x!=dom[b]: dom[b]=x; ch=True
    F._dom=dom; return dom
def rpo(F):
    if hasattr(F,"_rpo"): return F._rpo
    seen=set(); out=[]
    def go(b):
        st=[(b,iter(F.blocks[b].succ))]; seen.add(b)
        while st:
            x,it=st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s,iter(F.blocks[s].succ))); break
            else: out.append(x); st.pop()
    go(0); F._rpo=out[::-1]; return F._rpo
def liveness(F):
    if hasattr(F,"_live"): return F._live
    use={}; de={}
    for b in F.reach:
        u=set(); d=set()
        for I in F.blocks[b].insts:
            if I.phi is None:
                for o in operands(I):
                    if o[0]=="i" and o[1] not in d: u.add(o[1])
                    elif o[0]in("ge","ce"): pass
            d.add(I.id)
        use[b]=u; de[b]=d
    live={b:set(use[b]) for b in F.reach}
    ch=True
    while ch:
        ch=False
        for b in reversed(rpo(F)):
            out=set()
            for s in F.blocks[b].succ:
                out|=live[s]
                for I in F.blocks[s].insts:
                    if I.phi is None: break
                    for v,pb in I.phi:
                        if pb==b and v[0]=="i": out.add(v[1])
                        if I.id in out: pass
            # phi results of successors are defined there, not live-out here
            for s in F.blocks[b].succ:
                for I in F.blocks[s].insts:
                    if I.phi is None: break
                    # keep if used as incoming too
                    pass
            n=use[b]|(out-de[b])
            # phi results of b itself are defined at entry
            if n!=live[b]: live[b]=n; ch=True
    F._live=live; return live
