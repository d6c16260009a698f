"""The grammar of the SQL parser: bison's own report of the rules, and for each rule the instructions of its action
in the generated parser (the blocks only reachable through the case of that rule)."""
import os, tempfile, shutil, xml.etree.ElementTree as ET
import prep
from prog import *
def grammar():
    """(rules {number:(lhs,(rhs...))}, precedence {terminal:(level,assoc)}, token numbers)"""
    os.makedirs(prep.CACHE,exist_ok=True)
    d=tempfile.mkdtemp(prefix="vp-gr-",dir=prep.CACHE)
    try:
        x=os.path.join(d,"g.xml")
        prep.sh(["bison","-Wno-yacc","-y","--xml="+x,"-o",os.path.join(d,"p.c"),os.path.join(prep.REPO,"libmsi/sql-parser.y")],env=prep.env())
        r=ET.parse(x).getroot()
    finally: shutil.rmtree(d,ignore_errors=True)
    rules={}
    for e in r.iter("rule"):
        rules[int(e.get("number"))]=(e.find("lhs").text,tuple(s.text for s in e.find("rhs").iter("symbol")))
    prec={}; toks={}
    for e in r.iter("terminal"):
        toks[e.get("name")]=int(e.get("token-number"))
        if e.get("prec"): prec[e.get("name")]=(int(e.get("prec")),e.get("assoc"))
    return rules,prec,toks
class Actions:
    def __init__(self,P,F,rules):
        self.P=P; self.F=F; self.rules=rules
        sw=[B.term for B in F.blocks if B.i in F.reach and B.term.op=="switch" and len(B.term.cases)>20]
        self.ok=len(sw)==1
        if not self.ok: return
        S=sw[0]; self.sw=S; dom=dominators(F); self.case={}
        for v,b in S.cases:
            if b!=S.deflt: self.case[v-1]=b   # the parser counts from 1
        self.region={v:[x for x in F.reach if b in dom[x]] for v,b in self.case.items()}
        # the stack pointer: base of the accesses to the semantic values
        self.rets={}
    def insts(self,n):
        for b in sorted(self.region.get(n,())):
            for I in self.F.blocks[b].insts: yield I
    def addrpos(self,n,o):
        """position i if the address is that of the value $i"""
        F=self.F
        if o[0]!="i": return None
        I=F.insts[o[1]]
        steps=()
        while I.op in("getelementptr","bitcast"):
            if I.op=="getelementptr": steps=I.p+steps
            if I.op=="getelementptr" and I.p and I.p[0][0]=="*" and "STYPE" in I.p[0][1] and I.p[0][2][0]=="c":
                if any(s[0]=="f" and s[2]!=0 for s in steps): return None
                return I.p[0][2][1]+len(self.rules[n][1])
            o=I.a[0]
            if o[0]!="i": return None
            I=F.insts[o[1]]
        return None
    def yyval(self,o):
        """is the address that of the result of the rule"""
        F=self.F
        while o[0]=="i" and F.insts[o[1]].op in("getelementptr","bitcast"):
            I=F.insts[o[1]]
            if I.op=="getelementptr" and any(s[2]!=("c",0) if s[0] in "*[" else s[2]!=0 for s in I.p): return False
            o=I.a[0]
        return o[0]=="i" and F.insts[o[1]].op=="alloca" and "STYPE" in (F.insts[o[1]].at or "")
    def val(self,n,o,depth=0):
        """('c',k) | ('$',i) | ('neg',x) | ('or',k,x) | ('call',fn) | ('addr',i) | None"""
        F=self.F
        if o[0]=="n": return ("c",0)
        if o[0]=="c": return o
        if o[0]=="a": return ("arg",o[1])
        if o[0]!="i" or depth>8: return None
        I=F.insts[o[1]]
        if I.op=="load":
            p=self.addrpos(n,I.a[0])
            if p is not None: return ("$",p)
            if self.yyval(I.a[0]):
                # the result so far: what this action stored last, else the default $1
                st=[J for J in self.insts(n) if J.op=="store" and self.yyval(J.a[1]) and J.id<I.id]
                return self.val(n,st[-1].a[0],depth+1) if st else ("$",1)
            b=F.insts[I.a[0][1]] if I.a[0][0]=="i" else None
            if b is not None and b.op=="alloca": 
                st=[J for J in self.insts(n) if J.op=="store" and J.a[1]==I.a[0]]
                if any(J.op=="call" and I.a[0] in J.a for J in self.insts(n)): return ("out",b.id)
                if len(st)==1: return self.val(n,st[0].a[0],depth+1)
                return ("out",b.id)
            return None
        if I.op in("zext","sext","trunc","bitcast","freeze"): return self.val(n,I.a[0],depth+1)
        if I.op=="sub" and I.a[0]==("c",0): return ("neg",self.val(n,I.a[1],depth+1))
        if I.op in("or","and"):
            a,b=self.val(n,I.a[0],depth+1),self.val(n,I.a[1],depth+1)
            if a and b and a[0]=="c": a,b=b,a
            if a and b and b[0]=="c":
                if a[0]==I.op: return (I.op,(a[1]|b[1]) if I.op=="or" else (a[1]&b[1]),a[2])
                if a[0]=="c": return ("c",(a[1]|b[1]) if I.op=="or" else (a[1]&b[1]))
                return (I.op,b[1],a)
            return None
        if I.op=="call": return ("call",self.P.callname(F,I))
        if I.op=="getelementptr":
            p=self.addrpos(n,o)
            if p is not None: return ("addr",p)
            if self.yyval(o): return ("addr",0)
        if I.op=="alloca": return ("addr",0) if self.yyval(o) else ("out",I.id)
        if I.op=="select" and I.a[1]==("c",1) and I.a[2]==("c",0): return self.val(n,I.a[0],depth+1)
        if I.op=="icmp" and I.pred=="ne" and I.a[1]==("c",0): return ("bool",self.val(n,I.a[0],depth+1))
        return None
