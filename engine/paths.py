"""Path-sensitive dataflow over one function (property simulation).

The abstract state of a path is: equalities between SSA values (phi copies,
casts, reloads of the same memory cell), an interval/disequality fact per
value, the outcome of comparisons already made, and the state of the rule being
checked.  States are finite (no arithmetic is folded around loops) and are
merged when equal; above a cap per block, facts not used by the rule are
dropped (over-approximating the feasible paths)."""
from prog import *
INF=float("inf")
class State:
    __slots__=("env","facts","defs","mem","cmps","rs","trace","esc")
    def copy(s):
        n=State(); n.env=dict(s.env); n.facts=dict(s.facts); n.defs=dict(s.defs); n.mem=dict(s.mem); n.cmps=dict(s.cmps); n.rs=s.rs; n.trace=s.trace; n.esc=s.esc
        return n
TOP=(-INF,INF,frozenset())
def meet(a,b):
    lo=max(a[0],b[0]); hi=min(a[1],b[1]); ne=a[2]|b[2]
    while lo in ne and lo<=hi: lo+=1
    while hi in ne and lo<=hi: hi-=1
    if lo>hi: return None
    if lo==hi: return (lo,hi,frozenset())
    return (lo,hi,frozenset(x for x in ne if lo<=x<=hi))
NEG={"eq":"ne","ne":"eq","slt":"sge","sge":"slt","sgt":"sle","sle":"sgt","ult":"uge","uge":"ult","ugt":"ule","ule":"ugt"}
SWAP={"eq":"eq","ne":"ne","slt":"sgt","sgt":"slt","sle":"sge","sge":"sle","ult":"ugt","ugt":"ult","ule":"uge","uge":"ule"}
def constraint(pred,k,wide=32):
    """facts on x implied by 'x pred k' (k int)"""
    if pred=="eq": return (k,k,frozenset())
    if pred=="ne": return (-INF,INF,frozenset([k]))
    if pred=="slt": return (-INF,k-1,frozenset())
    if pred=="sle": return (-INF,k,frozenset())
    if pred=="sgt": return (k+1,INF,frozenset())
    if pred=="sge": return (k,INF,frozenset())
    if k>=0:
        if pred=="ult": return (0,k-1,frozenset())
        if pred=="ule": return (0,k,frozenset())
        # unsigned above: the value may be "negative" in signed form; exclude 0..k
        if pred=="ugt": return (-INF,INF,frozenset(range(0,k+1))) if k<16 else (-INF,INF,frozenset([0]))
        if pred=="uge": return (-INF,INF,frozenset(range(0,k))) if k<16 else (-INF,INF,frozenset([0]))
    return TOP
PROP={"zext","sext","trunc","bitcast","freeze","ptrtoint","inttoptr","xor","and","or","icmp"}
def testlive(F,P):
    """per block: values whose facts can still decide a test or the return value,
    and memory fields that are loaded for such a test"""
    if hasattr(F,"_tl"): return F._tl
    R=set(); ch=True
    def tests(I): return I.op in("icmp","switch","ret") or I.op=="br" or I.op=="select"
    insts=[I for b in F.reach for I in F.blocks[b].insts]
    while ch:
        ch=False
        for I in insts:
            ops=()
            if I.op in("icmp","switch","ret","br"): ops=I.a
            elif I.op=="select": ops=I.a if I.id in R else I.a[:1]
            elif I.id in R and (I.op in PROP): ops=I.a
            elif I.id in R and I.op=="phi": ops=[v for v,_ in I.phi]
            elif I.op=="getelementptr" and len(I.p)==1 and I.id in R: ops=I.a
            elif I.op=="store": ops=I.a[:1] if I.a[1][0] in("i","a") else ()
            elif I.op=="call" and I.callee[0]=="g" and I.callee[1].startswith("llvm.expect"): ops=I.a
            for o in ops:
                if o[0]=="i" and o[1] not in R: R.add(o[1]); ch=True
    use={}; de={}; out={}
    for b in F.reach:
        u=set(); d=set()
        for I in F.blocks[b].insts:
            if I.phi is None and (tests(I) or I.op=="store" or I.id in R):
                if I.op in PROP or tests(I) or I.op=="store" or I.op=="getelementptr" or I.op=="call" and I.callee[0]=="g" and I.callee[1].startswith("llvm.expect"):
                    for o in I.a:
                        if o[0]=="i" and o[1] not in d: u.add(o[1])
            d.add(I.id)
        use[b]=u; de[b]=d
    live={b:set(use[b]) for b in F.reach}
    flds={b:set() for b in F.reach}
    for b in F.reach:
        for I in F.blocks[b].insts:
            if I.op=="load" and I.id in R:
                k=P.fieldkey(F,I.a[0])
                flds[b].add(k if k else ("?" if I.a[0][0]!="i" else I.a[0]))
    ch=True
    while ch:
        ch=False
        for b in reversed(rpo(F)):
            o=set(); fl=set(flds[b])
            for s in F.blocks[b].succ:
                o|=live[s]; fl|=flds[s]
                for I in F.blocks[s].insts:
                    if I.phi is None: break
                    if I.id in R:
                        for v,pb in I.phi:
                            if pb==b and v[0]=="i": o.add(v[1])
            n=use[b]|(o-de[b])
            if n!=live[b] or fl!=flds[b]: live[b]=n; flds[b]=fl; ch=True
    argt=set()
    for I in insts:
        ops=I.a if I.op!="phi" else [v for v,_ in I.phi]
        for x in ops:
            if x[0]=="a" and (I.op in("icmp","switch","ret","select","phi","store","br") or I.op in PROP): argt.add(x)
    F._tl=(live,flds,R,argt); return F._tl
class Explorer:
    CAP=96
    def __init__(self,prog,fn,rule):
        self.P=prog; self.F=fn; self.rule=rule; self.live=liveness(fn); self.tl=testlive(fn,prog); self.steps=0; self.widened=False
        self.modref=prog.modref()
        self.escaping=self.find_escaping()
    def find_escaping(self):
        """allocas whose address is passed to calls or stored"""
        esc=set(); F=self.F; base={}
        for I in self.P.insts(F):
            if I.op=="alloca": base[I.id]=I.id
            elif I.op in("getelementptr","bitcast") and I.a[0][0]=="i" and I.a[0][1] in base: base[I.id]=base[I.a[0][1]]
        for I in self.P.insts(F):
            if I.op=="call" or I.op in("phi","select","ret"):
                ops=I.a if I.op!="phi" else [v for v,_ in I.phi]
                for a in ops:
                    if a[0]=="i" and a[1] in base: esc.add(base[a[1]])
            if I.op=="store" and I.a[0][0]=="i" and I.a[0][1] in base: esc.add(base[I.a[0][1]])
        return esc
    # ---- symbols
    def sym(self,st,op):
        t=op[0]
        if t=="i": return st.env.get(op[1],op)
        if t=="n": return ("c",0)
        if t in("ge","ce","k","f","u","?","b"): return op
        return op
    def fact(self,st,s):
        if s[0]=="c": return (s[1],s[1],frozenset()) if isinstance(s[1],int) else TOP
        if s[0]=="g" or s[0]=="ge": return (1,INF,frozenset())
        f=st.facts.get(s)
        if f is None:
            if s[0]=="i":
                I=self.F.insts.get(s[1])
                if I is not None and (I.op=="alloca" or I.op=="getelementptr" and self.gepnz(I)): return (1,INF,frozenset())
            return TOP
        return f
    def gepnz(self,I):
        # address of a member of an object is not null
        return any(x[0]=="f" for x in I.p)
    def value(self,st,s):
        """fact about s, looking through comparison results"""
        d=st.defs.get(s)
        if d is not None and d[0] in("icmp","not","and1","or1"):
            t=self.assume(st.copy(),s,True); f=self.assume(st.copy(),s,False)
            if t and not f: return (1,1,frozenset())
            if f and not t: return (0,0,frozenset())
            return TOP
        return self.fact(st,s)
    def rename(self,st,old,new):
        """old symbol gets redefined: move references"""
        used=False
        for k,v in list(st.env.items()):
            if v==old: st.env[k]=new; used=True
        for k in list(st.mem.keys()):
            v=st.mem[k]
            if v==old: v=new; used=True
            k2=_ren(k,old,new)
            if k2!=k: del st.mem[k]; used=True
            st.mem[k2]=v
        if st.rs is not None:
            r=_ren(st.rs,old,new)
            if r!=st.rs: st.rs=r; used=True
        for k in list(st.defs):
            d=_ren(st.defs[k],old,new)
            if d!=st.defs[k]: st.defs[k]=d; used=True
        for k in list(st.cmps):
            k2=_ren(k,old,new)
            if k2!=k: st.cmps[k2]=st.cmps.pop(k); used=True
        if old in st.facts:
            f=st.facts.pop(old)
            if used: st.facts[new]=f
        elif new in st.facts: st.facts.pop(new)
        if old in st.defs:
            d=st.defs.pop(old)
            if used: st.defs[new]=d
    def define(self,st,I):
        """fresh symbol for the value of I"""
        s=("i",I.id)
        o=("o",I.id)
        if any(v==o for v in st.env.values()) or o in st.facts or o in st.defs:
            self.rename(st,o,("o2",I.id)) if False else self.kill(st,o)
        self.rename(st,s,o)
        st.env.pop(I.id,None)
        return s
    def kill(self,st,s):
        st.facts.pop(s,None); st.defs.pop(s,None)
        for k in [k for k in st.cmps if _has(k,s)]: del st.cmps[k]
        for k in [k for k,d in st.defs.items() if _has(d,s)]: del st.defs[k]
    # ---- refinement
    def assume(self,st,s,truth):
        """value s is nonzero (truth) / zero; returns feasibility"""
        return self.constrain(st,s,"ne" if truth else "eq",0)
    def constrain(self,st,s,pred,k):
        d=st.defs.get(s)
        if d is not None:
            if d[0]=="icmp" and pred in("eq","ne") and k in(0,1,-1):
                truth=(pred=="ne")==(k==0)
                return self.compare(st,d[1],d[2],d[3],truth)
            if d[0]=="not" and pred in("eq","ne") and k in(0,1,-1):
                truth=(pred=="ne")==(k==0)
                if not self.assume(st,d[1],not truth): return False
            if d[0]=="and1" and pred in("eq","ne") and k==0 and pred=="ne":
                return self.assume(st,d[1],True) and self.assume(st,d[2],True)
            if d[0]=="or1" and pred=="eq" and k==0:
                return self.assume(st,d[1],False) and self.assume(st,d[2],False)
            if d[0]=="offset" and pred in("eq","ne"):
                return self.constrain(st,d[1],pred,k-d[2])
        f=meet(self.fact(st,s),constraint(pred,k))
        if f is None: return False
        if s[0] not in("c","g","ge"): st.facts[s]=f
        return True
    def compare(self,st,pred,a,b,truth):
        if not truth: pred=NEG.get(pred)
        if pred is None: return True
        fa=self.fact(st,a); fb=self.fact(st,b)
        if fa[0]==fa[1] and fb[0]==fb[1] and a[0]!="c" and b[0]!="c": return _evalc(pred,fa[0],fb[0])
        if a[0]=="c" and b[0]!="c": a,b=b,a; pred=SWAP[pred]
        if b[0]=="c" and isinstance(b[1],int):
            if a[0]=="c" and isinstance(a[1],int): return _evalc(pred,a[1],b[1])
            return self.constrain(st,a,pred,b[1])
        if a==b:
            return pred in("eq","sle","sge","ule","uge")
        if b<a: a,b=b,a; pred=SWAP[pred]
        key=(a,b)
        old=st.cmps.get(key)
        allp=_IMP.get(pred)
        if old is not None and allp is not None:
            n=old&allp
            if not n: return False
            st.cmps[key]=n
        elif allp is not None: st.cmps[key]=allp
        fa=self.fact(st,a); fb=self.fact(st,b)
        if pred=="eq":
            m=meet(fa,fb)
            if m is None: return False
            if a[0] not in("g","ge","c"): st.facts[a]=m
            if b[0] not in("g","ge","c"): st.facts[b]=m
        return True
    # ---- memory
    def addr(self,st,op):
        """canonical address: (base symbol, steps)"""
        steps=()
        for _ in range(40):
            if op[0]=="i":
                op=st.env.get(op[1],op)
                I=self.F.insts.get(op[1]) if op[0]=="i" else None
                if I is not None and I.op=="getelementptr":
                    steps=tuple(self.step(st,x) for x in I.p)+steps
                    op=I.a[0]; continue
                return (op,_norm(steps))
            if op[0]=="ge":
                steps=tuple(self.step(st,x) for x in op[2])+steps; op=op[1]; continue
            return (op,_norm(steps))
        return (op,_norm(steps))
    def step(self,st,x):
        if x[0]=="f": return ("f",x[1],x[2],x[3])
        if x[0]=="*": return ("*",x[1],self.sym(st,x[2]))
        if x[0]=="[": return ("[",self.sym(st,x[2]))
        return x
    def clobber_store(self,st,A):
        lf=_lastfield(A)
        for k in list(st.mem):
            if k==A: continue
            if k[0]==A[0] and k[1][:len(A[1])]==A[1]: del st.mem[k]; continue   # aggregate over member
            if lf is not None:
                if _lastfield(k)==lf and (_idx(k) or k[0]!=A[0] or _idx(A)): del st.mem[k]
            elif A[0]==k[0]: 
                del st.mem[k]
    def clobber_call(self,st,I,names,args):
        mods=set(); internal=False
        for n in names:
            if n in self.modref: mods|=self.modref[n]; internal=True
        for a in I.a:
            if a[0]=="g" and a[1] in self.modref: mods|=self.modref[a[1]]
        argb=set()
        for a in I.a:
            if a[0]=="i":
                argb.add(self.addr(st,a)[0])
        for k in list(st.mem):
            b=k[0]
            if b[0]=="i" and self.F.insts.get(b[1]) is not None and self.F.insts[b[1]].op=="alloca":
                if b in argb and not self.rule.preserves(self,st,I,k): del st.mem[k]
                continue
            lf=_lastfield(k)
            if lf is not None:
                if lf in mods or not names: del st.mem[k]
            elif b in argb or not k[1]:
                if (b in argb or internal) and not self.rule.preserves(self,st,I,k):
                    if not (b[0]=="g"): del st.mem[k]
                    else: del st.mem[k]
    # ---- execution
    def run(self,init_rs=None,facts=None,mem=None):
        F=self.F; s=State(); s.env={}; s.facts=dict(facts or {}); s.defs={}; s.mem=dict(mem or {}); s.cmps={}; s.rs=init_rs; s.trace=None; s.esc=None
        work=[(0,0,s)]; order={b:i for i,b in enumerate(rpo(F))}
        self.visited={}
        import heapq
        heap=[(0,0,0)]; cnt=1; store={0:s}
        while heap:
            _,i,b=heapq.heappop(heap); st=store.pop(i)
            for nb,ns in self.block(b,st):
                self.rule.edge(self,ns,b,nb)
                ns=self.enter(b,nb,ns)
                if ns is None: continue
                heapq.heappush(heap,(order[nb],cnt,nb)); store[cnt]=ns; cnt+=1
                if cnt>20000: self.widened="limit"; return
    def enter(self,b,nb,st):
        F=self.F
        # phis
        news=[]
        for I in F.blocks[nb].insts:
            if I.phi is None: break
            for v,pb in I.phi:
                if pb==b: news.append((I,self.sym(st,v))); break
        for I,v in news:
            # a phi is a copy of its incoming value on this path
            if v==("i",I.id): pass
        olds={}
        for I,v in news:
            s=("i",I.id)
            if v!=s:
                # retire the previous value of the phi itself if it was its own symbol
                o=("o",I.id); self.kill(st,o); 
                self.rename(st,s,o)
        for I,v in news:
            vv=v
            if v[0]=="i" and any(v==("i",J.id) for J,_ in news) : vv=("o",v[1])
            st.env[I.id]=vv
        self.prune(nb,st)
        k=self.key(st)
        vis=self.visited.setdefault(nb,set())
        if k in vis: return None
        if len(vis)>self.CAP:
            self.widened=True
            keep=set()
            _syms(st.rs,keep) if st.rs is not None else None
            if len(vis)<=4*self.CAP:
                # what this block itself tests is kept longest
                for I in F.blocks[nb].insts:
                    if I.phi is not None: keep.add(self.sym(st,("i",I.id)))
                    elif I.op in("icmp","switch","select") or I.op=="br": 
                        for o in I.a:
                            if o[0] in("i","a"): keep.add(self.sym(st,o))
            old=st.facts; st.facts={a:f for a,f in st.facts.items() if a in keep}
            st.cmps={}; st.mem={kk:v for kk,v in st.mem.items() if v in keep or self.rule.keepmem(self,st,kk,v)}
            st.facts.update({a:f for a,f in old.items() if a in st.mem.values()})
            if len(vis)>4*self.CAP:
                mv=set(st.mem.values())
                st.env={a:v for a,v in st.env.items() if v in keep or v in mv or v[0]=="c" and len(vis)<16*self.CAP}
                st.defs={a:d for a,d in st.defs.items() if a in keep or a in mv}
            k=self.key(st)
            if k in vis: return None
        vis.add(k)
        return st
    def prune(self,b,st):
        live=self.live[b]; tl,flds,R,argt=self.tl; tl=tl[b]; fl=flds[b]
        phis={I.id for I in self.F.blocks[b].insts if I.phi is not None}
        rs=set()
        if st.rs is not None: _syms(st.rs,rs)
        # aliases of live values are kept (they identify the object); facts only where still testable
        env={}
        for k,v in st.env.items():
            if k in live or k in phis:
                if k in tl or k in phis and k in R or v in rs or v[0] in("a","g","i"): env[k]=v
                else: env[k]=v
        st.env=env
        need=set(rs)
        for k in tl:
            need.add(env.get(k,("i",k)))
        for k in phis:
            if k in R and k in env: need.add(env[k])
        need|=argt
        mem={}
        for k,v in st.mem.items():
            lf=_lastfield(k)
            ok=False
            if v in rs: ok=True
            elif lf is not None: ok=lf in fl
            else:
                ok=k[0] in fl or "?" in fl
                if not ok and k[0][0]=="i":
                    ok=any(x==k[0] or (isinstance(x,tuple) and x[0]=="i" and self.basealloca(x)==k[0]) for x in fl)
            if not ok and self.rule.keepmem(self,st,k,v): ok=True
            if ok:
                bs=set(); _syms(k,bs)
                bs={x for x in bs if not self.perm(x)}
                if all(x in need or (x[0]=="i" and x[1] in live) or x in env.values() for x in bs): mem[k]=v
        work=list(need)
        while work:
            d=st.defs.get(work.pop())
            if d:
                t=set(); _syms(d,t)
                for x in t:
                    if x not in need: need.add(x); work.append(x)
        # drop cells that carry no information
        for k in list(mem):
            v=mem[k]
            if v[0] not in("c","g","ge","n") and v not in rs and v not in st.facts and v not in need and v not in st.defs and not self.rule.keepmem(self,st,k,v): del mem[k]
        st.mem=mem
        for k,v in mem.items(): need.add(v)
        work=list(need)
        while work:
            s=work.pop()
            d=st.defs.get(s)
            if d:
                t=set(); _syms(d,t)
                for x in t:
                    if x not in need: need.add(x); work.append(x)
        st.facts={k:v for k,v in st.facts.items() if k in need}
        ev=set(env.values())|set(mem.values())|rs
        keep={k for k in st.defs if k in need and (k[0]!="i" or k[1] in tl or k in ev)}
        work=list(keep)
        while work:
            t=set(); _syms(st.defs[work.pop()],t)
            for x in t:
                if x in st.defs and x not in keep: keep.add(x); work.append(x)
        st.defs={k:v for k,v in st.defs.items() if k in keep}
        st.cmps={k:v for k,v in st.cmps.items() if all(x in need for x in k)}
        # env entries that are plain self copies of dead facts do not distinguish states
    def basealloca(self,x):
        I=self.F.insts.get(x[1])
        while I is not None and I.op in("getelementptr","bitcast"):
            if I.a[0][0]!="i": return None
            I=self.F.insts.get(I.a[0][1])
        return ("i",I.id) if I is not None and I.op=="alloca" else None
    def perm(self,x):
        if x[0] in("a","g","c","n"): return True
        if x[0]=="i":
            I=self.F.insts.get(x[1]); return I is not None and I.op=="alloca"
        return False
    def key(self,st):
        return (frozenset(st.env.items()),frozenset(st.facts.items()),frozenset(st.mem.items()),frozenset(st.cmps.items()),frozenset(st.defs.items()),st.rs)
    def block(self,b,st):
        F=self.F; states=[st]
        for I in F.blocks[b].insts:
            if I.phi is not None: continue
            self.steps+=1
            if I is F.blocks[b].term:
                out=[]
                for s in states: out+=self.terminate(I,s)
                return out
            nxt=[]
            for s in states: nxt+=self.step_inst(I,s)
            states=nxt
            if len(states)>4 and I.op=="call":
                # outcomes that no longer differ are one state
                states=list({self.key(s):s for s in states}.values())
            if not states: return []
        return []
    def terminate(self,I,st):
        if I.op=="br":
            if not I.a or len(self.F.blocks[I.blk].succ)==1: return [(self.F.blocks[I.blk].succ[0],st)]
            c=self.sym(st,I.a[0]); out=[]
            t,f=I.succ
            if t==f: return [(t,st)]
            a=st.copy()
            if self.assume(a,c,True) and self.rule.branch(self,a,I,c,True): out.append((t,a))
            if self.assume(st,c,False) and self.rule.branch(self,st,I,c,False): out.append((f,st))
            return out
        if I.op=="switch":
            c=self.sym(st,I.a[0]); out=[]
            by={}
            for v,bb in I.cases: by.setdefault(bb,[]).append(v)
            for bb,vs in by.items():
                for v in vs:
                    a=st.copy()
                    if self.constrain(a,c,"eq",v) and self.rule.branch(self,a,I,c,v): out.append((bb,a))
            a=st; ok=True
            for v,_ in I.cases:
                if not self.constrain(a,c,"ne",v): ok=False; break
            if ok and self.rule.branch(self,a,I,c,None): out.append((I.deflt,a))
            return out
        if I.op=="ret":
            self.rule.ret(self,st,I,self.sym(st,I.a[0]) if I.a else None); return []
        if I.op=="unreachable":
            self.rule.unreachable(self,st,I); return []
        return []
    def step_inst(self,I,st):
        op=I.op
        if op=="call":
            names=self.P.callees(self.F,I)
            n=self.P.callname(self.F,I)
            if n.startswith("llvm."):
                if n.startswith("llvm.expect"):
                    st.env[I.id]=self.sym(st,I.a[0]); return [st]
                if n.startswith("llvm.lifetime") or n.startswith("llvm.dbg"): return [st]
            args=[self.sym(st,a) for a in I.a]
            if n in PURE and args:
                d=("pure",n)+tuple(args)
                for k,v in st.defs.items():
                    if v==d: st.env[I.id]=k; return [st]
                s=self.define(st,I)
                if not _has(d,s): st.defs[s]=d
                st.facts[s]=(0,2**62,frozenset()); return [st]
            pre=self.rule.precall(self,st,I,n,names,args)
            if pre is False: return []
            self.clobber_call(st,I,names,args)
            s=self.define(st,I)
            # cast macros/identity helpers
            if n in IDENT: st.env[I.id]=args[0]; return [st]
            if I.nr or n in NORETURN:
                self.rule.noreturn(self,st,I,n); return []
            r=self.rule.call(self,st,I,n,names,args,s)
            return [st] if r is None else r
        if op=="load":
            A=self.addr(st,I.a[0])
            v=st.mem.get(A)
            if v is None:
                g=self.constload(A)
                s=self.define(st,I)
                A=self.addr(st,I.a[0])
                if g is not None: st.env[I.id]=g; v=g
                else: st.mem[A]=s; v=s
                self.rule.load(self,st,I,A,v,True)
            else:
                s=("i",I.id)
                if v!=s:
                    self.define(st,I); v2=st.mem.get(A)
                    A=self.addr(st,I.a[0]); v=st.mem.get(A,v)
                    st.env[I.id]=v
                self.rule.load(self,st,I,A,v,False)
            return [st]
        if op=="store":
            A=self.addr(st,I.a[1]); v=self.sym(st,I.a[0])
            self.rule.store(self,st,I,A,v)
            self.clobber_store(st,A)
            st.mem[A]=v
            return [st]
        if op in("zext","sext","bitcast","ptrtoint","inttoptr","freeze","addrspacecast","trunc"):
            v=self.sym(st,I.a[0])
            if op=="trunc" and I.ty=="i1": pass
            if op=="sext" and I.ot=="i1": self.define(st,I); return [st]
            if op=="trunc" and I.ty!="i1":
                f=self.fact(st,v)
                if I.ty in("i8","i16") and not(f[0]>=0 and f[1]<=127):
                    self.define(st,I); return [st]
            self.define(st,I); v=self.sym(st,I.a[0])
            st.env[I.id]=v; return [st]
        if op=="icmp":
            s=self.define(st,I)
            a=self.sym(st,I.a[0]); b=self.sym(st,I.a[1])
            if a[0]=="c" and b[0]=="c" and isinstance(a[1],int) and isinstance(b[1],int):
                st.env[I.id]=("c",1 if _evalc(I.pred,a[1],b[1]) else 0); return [st]
            st.defs[s]=("icmp",I.pred,a,b); st.facts.pop(s,None)
            self.rule.icmp(self,st,I,a,b)
            return [st]
        if op=="select":
            s=self.define(st,I)
            c=self.sym(st,I.a[0]); out=[]
            a=st.copy()
            if self.assume(a,c,True): a.env[I.id]=self.sym(a,I.a[1]); out.append(a)
            if self.assume(st,c,False): st.env[I.id]=self.sym(st,I.a[2]); out.append(st)
            return out
        if op in("xor","and","or","add","sub","mul","shl","lshr","ashr"):
            s=self.define(st,I)
            a=self.sym(st,I.a[0]); b=self.sym(st,I.a[1])
            st.facts.pop(s,None)
            if op=="xor" and b==("c",-1 if I.ty!="i1" else -1) and I.ty=="i1" or (op=="xor" and I.ty=="i1" and b in(("c",1),("c",-1))):
                st.defs[s]=("not",a)
            elif op=="and" and I.ty=="i1": st.defs[s]=("and1",a,b)
            elif op=="or" and I.ty=="i1": st.defs[s]=("or1",a,b)
            elif op=="and" and a[0]=="c" and b[0]=="c": st.env[I.id]=("c",a[1]&b[1])
            elif op=="or" and a[0]=="c" and b[0]=="c": st.env[I.id]=("c",a[1]|b[1])
            elif op=="and" and b[0]=="c" and isinstance(b[1],int) and b[1]>=0:
                # the same masked bits of the same value are one value
                key=("mask",a,b[1])
                st.facts[s]=(0,b[1],frozenset())
                for k,d in st.defs.items():
                    if d==("maskof",a,b[1]) and k!=s: st.env[I.id]=k; st.facts.pop(s,None); return [st]
                st.defs[s]=("maskof",a,b[1])
            return [st]
        if op=="getelementptr":
            self.define(st,I)
            # zero offset of a plain pointer is the pointer itself
            if len(I.p)==1 and I.p[0][2]==("c",0): st.env[I.id]=self.sym(st,I.a[0])
            self.rule.gep(self,st,I)
            return [st]
        if I.ty!="void": self.define(st,I)
        self.rule.other(self,st,I)
        return [st]
    def constload(self,A):
        return None
IDENT={"g_type_check_instance_cast","g_type_check_class_cast","g_steal_pointer"}
PURE={"strlen"}
NORETURN={"exit","abort","__assert_fail","g_assertion_message_expr","g_assertion_message","_exit","g_abort"}
_IMP={"eq":frozenset("e"),"ne":frozenset("lg"),"slt":frozenset("l"),"ult":frozenset("l"),"sle":frozenset("le"),"ule":frozenset("le"),"sgt":frozenset("g"),"ugt":frozenset("g"),"sge":frozenset("ge"),"uge":frozenset("ge")}
def _evalc(pred,a,b):
    if pred in("ult","ule","ugt","uge"):
        a&=(1<<64)-1; b&=(1<<64)-1
    return {"eq":a==b,"ne":a!=b,"slt":a<b,"sle":a<=b,"sgt":a>b,"sge":a>=b,"ult":a<b,"ule":a<=b,"ugt":a>b,"uge":a>=b}[pred]
def _ren(x,old,new):
    if x==old: return new
    if isinstance(x,tuple):
        y=tuple(_ren(e,old,new) if isinstance(e,(tuple,frozenset)) else e for e in x)
        return y if y!=x else x
    if isinstance(x,frozenset): return frozenset(_ren(e,old,new) if isinstance(e,(tuple,frozenset)) else e for e in x)
    return x
def _has(x,s):
    if x==s: return True
    if isinstance(x,(tuple,frozenset)): return any(_has(e,s) for e in x if isinstance(e,(tuple,frozenset)))
    return False
def _syms(x,out):
    if isinstance(x,tuple):
        if len(x)==2 and x[0] in("i","o","a","o2","h") : out.add(x); return
        for e in x:
            if isinstance(e,(tuple,frozenset)): _syms(e,out)
    elif isinstance(x,frozenset):
        for e in x: _syms(e,out)
def _norm(steps):
    out=[]
    for s in steps:
        if s[0]=="*" and s[2]==("c",0): continue
        out.append(s)
    return tuple(out)
def _lastfield(A):
    for s in reversed(A[1]):
        if s[0]=="f": return (s[1].replace("%struct.","").replace("%union.",""),s[3])
    return None
def _idx(A): return any(s[0] in("[","*") for s in A[1])
class Rule:
    """callbacks; all optional"""
    def precall(self,X,st,I,n,names,args): return None
    def call(self,X,st,I,n,names,args,ret): return None
    def ret(self,X,st,I,v): pass
    def noreturn(self,X,st,I,n): pass
    def unreachable(self,X,st,I): pass
    def branch(self,X,st,I,c,truth): return True
    def edge(self,X,st,b,t): pass
    def load(self,X,st,I,A,v,fresh): pass
    def store(self,X,st,I,A,v): pass
    def gep(self,X,st,I): pass
    def icmp(self,X,st,I,a,b): pass
    def other(self,X,st,I): pass
    def preserves(self,X,st,I,k): return False
    def keepmem(self,X,st,k,v): return False
