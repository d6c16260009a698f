"""The rows wixl computes for its elements: every visitor is interpreted, at the level of bits and with the helpers it calls,
on elements with concrete attributes and parents; the rows it adds are compared with those the WiX documentation gives."""
from steps import *
from cmodel import *
from recmodel import *
from sccp import nicks
import re
MINIMUM={"elements":90,"rows":80}
ANC={"registry_value":"key_element","file":"key_element","key_element":"element","element":"node","text":"node",None:None,"directory_ref":"element_ref","component_ref":"element_ref","component_group_ref":"element_ref","element_ref":"element"}
def anc(kd):
    r=[kd]
    while kd not in("node",None): kd=ANC.get(kd,"element"); r.append(kd)
    return r
B=("heap","BUILDER"); BP=("heap","BPRIV")
class El:
    """an element of a source: its kind, attributes and parent"""
    n=0
    def __init__(s,kind,parent=None,text=None,**a):
        El.n+=1; s.kind,s.parent,s.a,s.kids,s.text,s.resolved=kind,parent,a,[],text,None; s.base=("el",kind,El.n); s.key=None; s.feats=[]
        if parent is not None: parent.kids.append(s)
    def ref(s,k,parent=None,**a): e=El(k,parent,**a); e.resolved=s; return e
def run(ctx):
    P=ctx.prog("wixl"); W=Wixl(ctx,P)
    for c in CASES: c(W)
    ctx.rule("For each element, exactly the documented rows are added, with the documented values.")
class Wixl:
    def __init__(s,ctx,P):
        s.ctx,s.P=ctx,P; s.M=M=CModel(P); c=M.calls; s.fns=set()
        s.o={}
        for st,fs in(("_WixlWixNode",("parent",)),("_WixlWixElement",("children",)),("_WixlWixComponent",("key","in_feature")),("_WixlWixShortcut",("record",)),("_WixlWixMedia",("record",)),("_WixlWixNodeVisitor",())):
            for f in fs:
                s.o[(st,f)]=struct_off(P,st,f); ctx.need(s.o[(st,f)] is not None,"field %s of %s not found"%(f,st))
        s.b={x[0]:x[1]//8 for x in P.structs["_WixlWixBuilderPrivate"]}
        ctx.need({"arch","secureProperties","ServiceArguments","ServiceDependencies","component_default_key"}<=set(s.b),"fields of the builder not found")
        if not P.structs.get("_WixlWixBuilder"): P.structs["_WixlWixBuilder"]=[["parent_instance",0,256,"WixlWixNodeVisitor"],["priv",256,64,"WixlWixBuilderPrivate*"]]     # opaque in the debug information: the parent class, then the address of the private part
        g=re.compile(r"wixl_wix_(.+)_(get|set)_([A-Z]\w*)$"); s.els={}
        for n,G in P.fns.items():
            x=g.match(n)
            if x: c[n]=s.getter(x.group(3)) if x.group(2)=="get" else s.setter(x.group(3))
            elif re.match(r"wixl_msi_table_\w+_(add|set_\w+)$",n): c[n]=s.row(n,G)
            elif n.endswith("_from_string") and any(P.callname(G,I)=="wixl_enum_from_string" for Bk in G.blocks for I in Bk.insts if I.op=="call"): c[n]=s.enum(G)
        names={P.callname(G,I) for G in P.fns.values() for Bk in G.blocks for I in Bk.insts if I.op=="call"}
        for n in names|set(P.fns):
            if n.endswith("_get_type"): c[n]=(lambda n:lambda I,a,m,w:C(s.tid(n),64))(n)
            if re.match(r"libmsi_summary_info_set_|wixl_msi_summary_info_set_",n): c[n]=s.row(n,P.fns.get(n))
            if re.match(r"wixl_msi_summary_info_get_",n): c[n]=lambda I,a,m,w:("null",0)
            if n.endswith("_get_text") and n.startswith("wixl_wix"): c[n]=lambda I,a,m,w:s.strdup(I,s.el(a[0]).kids[0].text if s.el(a[0]).kids else s.el(a[0]).text,m,w)
        def isa(I,a,m,w):
            if a[0]==("null",0): return C(0)
            e=s.el(a[0]); t=k(a[1])
            if e is None or t is None: return None
            return C(1 if any(s.tid("wixl_wix_%s_get_type"%x)==t for x in anc(e.kind)) else 0)
        c["g_type_check_instance_is_a"]=isa
        for n in("_g_object_ref0","g_object_ref","g_type_check_instance_cast"): c[n]=lambda I,a,m,w:a[0]
        for n in("g_object_unref","g_free","free","g_return_if_fail_warning","g_error_free"): c[n]=lambda I,a,m,w:None
        def rais(I,a,m,w):
            w.append((("event","refused"),None,I))
            m[(("errp",),0)]=("err",0)
            return ("err",0)
        for n in("g_error_new_literal","g_error_new"): c[n]=lambda I,a,m,w:(w.append((("event","refused"),None,I)),(("err",),0))[1]
        def prop(I,a,m,w):
            if isinstance(a[0],tuple) and a[0]!=("null",0): m[a[0]]=a[1]
            return None
        c["g_propagate_error"]=prop
        c["g_set_error_literal"]=c["g_set_error"]=lambda I,a,m,w:(w.append((("event","refused"),None,I)),m.__setitem__(a[0],(("err",),0)) if isinstance(a[0],tuple) and a[0]!=("null",0) else None,None)[2]
        c["wixl_error_quark"]=lambda I,a,m,w:C(1)
        c["g_quark_from_string"]=c["g_quark_from_static_string"]=c["g_quark_try_string"]=lambda I,a,m,w:C(s.tid(s.str(m,a[0])) if s.str(m,a[0]) is not None else 0)
        def strjoin(I,a,m,w):
            r=[]
            for x in a[1:]:
                if x==("null",0): break
                r.append(s.str(m,x) or "?")
            return s.strdup(I,(s.str(m,a[0]) or "").join(r),m,w)
        c["g_strjoin"]=strjoin
        c["g_value_init"]=c["g_value_unset"]=c["g_value_set_int"]=c["g_value_set_string"]=c["g_value_take_string"]=lambda I,a,m,w:a[0] if I.ty=="ptr" else None
        c["g_type_check_value"]=lambda I,a,m,w:C(1)
        c["g_clear_error"]=lambda I,a,m,w:m.__setitem__(a[0],("null",0)) if isinstance(a[0],tuple) and a[0]!=("null",0) else None
        c["g_utf8_strdown"]=lambda I,a,m,w:s.strdup(I,(s.str(m,a[0]) or "").lower(),m,w)
        c["g_utf8_strup"]=lambda I,a,m,w:s.strdup(I,(s.str(m,a[0]) or "").upper(),m,w)
        c["string_strip"]=lambda I,a,m,w:s.strdup(I,(s.str(m,a[0]) or "").strip(),m,w)
        c["wixl_generate_id"]=lambda I,a,m,w:s.strdup(I,"<id>",m,w)
        c["wixl_uuid_from_name"]=lambda I,a,m,w:s.strdup(I,"<uuid of %s>"%s.str(m,a[0]),m,w)
        c["wixl_wix_element_full_path"]=lambda I,a,m,w:s.strdup(I,s.el(a[0]).a.get("Id") or "",m,w)
        c["wixl_wix_key_element_path_name"]=c["wixl_wix_file_real_path_name"]=lambda I,a,m,w:s.strdup(I,s.el(a[0]).a.get("Name") or "",m,w)
        c["wixl_wix_builder_resolve"]=lambda I,a,m,w:s.addr(s.res(s.el(a[4])))
        c["wixl_wix_builder_find_element"]=lambda I,a,m,w:s.addr(next((e for e in s.all if e.a.get("Id")==s.str(m,a[4])),None))
        c["wixl_wix_resolver_find_element"]=c["wixl_wix_builder_find_element"]; c["wixl_wix_resolver_resolve"]=c["wixl_wix_builder_resolve"]
        def find_file(I,a,m,w):
            if isinstance(a[2],tuple) and a[2]!=("null",0): m[a[2]]=(("info",),0)
            return (("gfile",s.str(m,a[1])),0)
        c["wixl_wix_builder_find_file"]=find_file
        c["g_file_info_get_size"]=lambda I,a,m,w:C(1234,64)
        c["g_file_get_path"]=lambda I,a,m,w:s.strdup(I,"path of "+(a[0][0][1] or "") if isinstance(a[0][0],tuple) and a[0][0][0]=="gfile" else None,m,w)
        c["g_object_set_data_full"]=c["g_object_set_data"]=lambda I,a,m,w:None
        # lists
        def append(I,a,m,w):
            c=m.get(("nodes",),0)+1; m[("nodes",)]=c; q=("node",I.id,c); w.append((("event","node"),q,I)); m[(q,0)]=a[1]; m[(q,8)]=("null",0); m[(q,16)]=("null",0)
            if a[0]==("null",0): return (q,0)
            x=a[0]
            while m.get((x[0],8),("null",0))!=("null",0): x=m[(x[0],8)]
            m[(x[0],8)]=(q,0); m[(q,16)]=x; return a[0]
        c["g_list_append"]=append
        def length(I,a,m,w):
            n,x=0,a[0]
            while isinstance(x,tuple) and x!=("null",0): n+=1; x=m.get((x[0],8),("null",0))
            return C(n)
        c["g_list_length"]=length
        def find(I,a,m,w):
            x=a[0]
            while isinstance(x,tuple) and x!=("null",0):
                if m.get((x[0],0))==a[1]: return x
                x=m.get((x[0],8),("null",0))
            return ("null",0)
        c["g_list_find"]=find
        c["g_list_first"]=lambda I,a,m,w:a[0]
        def joinv(I,a,m,w):
            r,p=[],a[1]
            while isinstance(p,tuple) and m.get(p,("null",0))!=("null",0):
                r.append(s.str(m,m[p]) or "?"); p=(p[0],p[1]+8)
            return s.strdup(I,(s.str(m,a[0]) or "").join(r),m,w)
        c["g_strjoinv"]=c["_vala_g_strjoinv"]=joinv
        def stradd(I,a,m,w):
            # (array,length,size,value): puts value at the end
            p=m.get(a[0]); n=k(m.get(a[1])) or 0
            if p in(None,("null",0)): p=(("arr",),0)
            m[a[0]]=p; m[(p[0],8*n)]=a[3]; m[(p[0],8*n+8)]=("null",0); m[a[1]]=C(n+1); return None
        for n in names:
            if n.startswith("_vala_array_add"): c[n]=stradd
        src={G.file for n,G in P.fns.items() if n.startswith("wixl_wix_builder_real_visit")}
        s.inline={n for n,G in P.fns.items() if G.file in src}|{n for n in P.fns if re.match(r"wixl_(parse_yesno|get_uuid|add_braces|enum_from)|string_|wixl_wix_shortcut_get_component$",n)}
        s.inline={n for n in s.inline if not n.endswith("_get_type")}
        def own(p,I,n,m):
            if isinstance(p[0],tuple) and p[0][0]=="el" and p[1]==0 and n is None: return (("cls",s.els[p[0]].kind),0) if p[0] in s.els else None
            if isinstance(p[0],tuple) and p[0][0]=="cls" and len(p[0])==2 and p[1]==0: return C(s.tid("wixl_wix_%s_get_type"%p[0][1]),64)
            return None
        M.own=own
    def tid(s,n): return 1000+sum((i+1)*ord(x) for i,x in enumerate(n))%100000007
    def str(s,m,p):
        if p==("null",0) or p is None: return None
        return s.M.str(m,p)
    def strdup(s,I,t,m,w): return s.M.fresh(I,m,w,[C(x,8) for x in t.encode()]) if t is not None else ("null",0)
    def el(s,p): return s.els.get(p[0]) if isinstance(p,tuple) else None
    def addr(s,e): return (e.base,0) if e is not None else ("null",0)
    def res(s,e): return e.resolved if e is not None and e.resolved is not None else e
    def getter(s,A):
        def h(I,a,m,w):
            e=s.el(a[0])
            if e is None: return None
            t=m.get(("attr",e.base,A),e.a.get(A)); 
            return s.M.place(m,t,("attr",e.base,A)) if t is not None else ("null",0)
        return h
    def setter(s,A):
        def h(I,a,m,w):
            e=s.el(a[0])
            if e is not None: m[("attr",e.base,A)]=s.str(m,a[1])
            return None
        return h
    def enum(s,G):
        ty=next((s.P.callname(G,I) for Bk in G.blocks for I in Bk.insts if I.op=="call" and s.P.callname(G,I).endswith("_get_type")),None); t=nicks(s.P,ty) if ty else None
        def h(I,a,m,w):
            x=s.str(m,a[0])
            if t is None or x is None: return None
            if x in t: return C(t[x]&0xffffffff)
            w.append((("event","refused"),x,I)); e=a[-1]
            if isinstance(e,tuple) and e!=("null",0): m[e]=(("err",),0)
            return C(0)
        return h
    def row(s,n,G):
        pn=G.pn if G else None
        def h(I,a,m,w):
            r={}
            for i,x in enumerate(a[1:],1):
                q=pn[i] if pn and i<len(pn) and pn[i] else str(i)
                if q in("error",""): continue
                ty=G.params[i] if G else None
                if isinstance(x,V):
                    v=x.const(); nb=32 if ty in(None,"i32") else 64 if ty=="i64" else 32
                    v=None if v is None else v&((1<<nb)-1); r[q]=v-(1<<nb) if v is not None and v>>(nb-1) else v
                    if v is None: r[q]="?"
                elif x==("null",0): r[q]=None
                elif isinstance(x,tuple) and isinstance(x[0],tuple) and x[0][0] in("gfile","rec"): r[q]=x[0]
                elif isinstance(x,tuple):
                    t=s.str(m,x)
                    if t is None and k(m.get(x)) is not None: t=k(m[x])        # an optional number is passed by its address
                    r[q]=t if t is not None else "?"
                else: r[q]="?"
            name=re.sub(r"^wixl_msi_(table_)?|^libmsi_","",n)
            w.append((("event","row"),(name,r,s.rid(a[0])),I))
            if "error" in(pn or ()) : pass
            if G and G.ret=="ptr" or name.endswith("_add") and I.ty=="ptr": return (("rec",name,len(w)),0)
            return C(1) if I.ty in("i32","i1") else None
        return h
    def rid(s,p): return p[0] if isinstance(p,tuple) and isinstance(p[0],tuple) and p[0][0]=="rec" else None
    # ---- a builder and the elements
    def start(s,els,arch=0,**bp):
        m={}; s.all=[]
        def add(e):
            if e is None or e in s.all: return
            s.all.append(e); add(e.parent); add(e.resolved)
            for x in e.kids: add(x)
        for e in els: add(e)
        s.els={e.base:e for e in s.all}
        for e in s.all:
            m[(e.base,s.o[("_WixlWixNode","parent")])]=s.addr(e.parent)
            prev=("null",0); f=("null",0)
            for i,x in reversed(list(enumerate(e.kids))):
                q=("kids",e.base,i); m[(q,0)]=s.addr(x); m[(q,8)]=f; m[(q,16)]=("null",0); f=(q,0)
            m[(e.base,s.o[("_WixlWixElement","children")])]=f
            if e.kind=="component":
                m[(e.base,s.o[("_WixlWixComponent","key")])]=s.addr(e.key); f=("null",0)
                for i,x in reversed(list(enumerate(e.feats))): q=("feats",e.base,i); m[(q,0)]=s.addr(x); m[(q,8)]=f; m[(q,16)]=("null",0); f=(q,0)
                m[(e.base,s.o[("_WixlWixComponent","in_feature")])]=f
            if e.kind=="text":
                st=struct_off(s.P,"_WixlWixText","Text")
                if st is not None: m[(e.base,st)]=s.M.place(m,e.text,("text",e.base))
        for f,o in s.b.items(): m[(BP,o)]=("null",0)
        for f in("arch","secureProperties_length1","_secureProperties_size_","component_children_count","feature_display"): m[(BP,s.b[f])]=C(0)
        m[(BP,s.b["arch"])]=C(arch); m[(BP,s.b["db"])]=(("db",),0)
        m[(B,0)]=(("cls",),0)
        for o in range(8,264,8): m[(B,o)]=(BP,0)
        return m,[]
    def visit(s,st,e,state=None,fn=None):
        """visits an element; the rows added, and the state after"""
        s.ctx.count("elements"); n=fn or "wixl_wix_builder_real_visit_"+VIS.get(e.kind,e.kind); F=s.P.fn(n); s.ctx.need(F,n+" not found"); s.ctx.fns([n]); s.last=F
        m,w=st; m=dict(m); m[(("errp",),0)]=("null",0)
        a=[(B,0)]+([s.addr(e)] if e is not None else [])
        if state is not None: a.append(C(s.P.enum("WIXL_VISIT_STATE_"+state)))
        a.append((("errp",),0)); a=a[:len(F.params)-1]+[a[-1]]
        R=Region(s.P,F,m,s.M.calls,60000,s.M.loads,s.inline-set(s.M.calls),("c44",n),True)
        out=R.run(0,{("a",i):x for i,x in enumerate(a)},w=list(w))
        s.ctx.stuck(out,n,s.P.loc(F.blocks[0].insts[0]))
        rows=[[x for t,x,I in w2[len(w):] if t==("event","row")] for kd,b,v,e2,w2 in out]; err=[e2["mem"].get((("errp",),0))!=("null",0) for kd,b,v,e2,w2 in out]
        if len({repr((r,x)) for r,x in zip(rows,err)})!=1: s.find("undecided","what is written is not decided by the attributes (%d ways)"%len(out)); return [],False,(m,w)
        return rows[0],err[0],(out[0][3]["mem"],out[0][4])
    def find(s,key,what): s.ctx.find("%s:%s"%(s.last.name,key),s.P.loc(s.last.blocks[0].insts[0]),what)
    def expect(s,what,got,want):
        """want: list of (table, {column parameter: value})"""
        s.ctx.ok(); rows,err,st=got; s.ctx.count("rows",len(want))
        g=[x[0] for x in rows]; 
        if err: s.find("error","%s is refused"%what); return st
        if g!=[x[0] for x in want]: s.find("rows","%s writes %s instead of %s"%(what,g or "nothing",[x[0] for x in want] or "nothing")); return st
        for (n,r,i),(n2,x) in zip(rows,want):
            for q,v in x.items():
                if q not in r: s.ctx.need(False,"%s has no parameter %s (has %s)"%(n,q,list(r)))
                if r[q]!=v: s.find(n+":"+q,"%s writes %s=%r instead of %r"%(what,q,r[q],v))
        return st
    def refused(s,what,got):
        s.ctx.ok()
        if not got[1]: s.find("accepted","%s is accepted"%what)
VIS={"prog_id":"progid"}
CASES=[]
def case(f): CASES.append(f); return f
def comp(**a):
    d=El("directory",None,Id="DIR",Name="dir"); return El("component",d,**dict(dict(Id="Comp",Guid="*"),**a)),d
@case
def registry(W):
    def one(what,rkey,attrs,root,key,value,name="N"):
        c,d=comp(); p=El("registry_key",c,**rkey) if rkey else c
        r=El("registry_value",p,Name=name,**attrs); st=W.start([r])
        W.expect("a RegistryValue "+what,W.visit(st,r),[("registry_add",{"Root":root,"Key":key,"Component":"Comp","Name":name,"Value":value})])
    one("in a component",None,dict(Root="HKLM",Key="A\\B",Type="string",Value="x"),2,"A\\B","x")
    for n,v in(("HKCR",0),("HKCU",1),("HKLM",2),("HKU",3),("HKMU",-1),("hkcu",1)): one("in "+n,None,dict(Root=n,Key="A",Type="string",Value="x"),v,"A","x")
    one("of a RegistryKey",dict(Root="HKCU",Key="K"),dict(Type="string",Value="x"),1,"K","x")
    one("with a key of a RegistryKey",dict(Root="HKCU",Key="K"),dict(Key="L",Type="string",Value="x"),1,"K\\L","x")
    one("with a root of its own",dict(Root="HKCU",Key="K"),dict(Root="HKLM",Type="string",Value="x"),2,"K","x")
    for t,v,x in(("integer","12","#12"),("string","#x","##x"),("string","a#x","a#x"),("string","","") ,("string","[#F]","[#F]"),("binary","AB","#xAB"),("binary","#xAB","#xAB"),("expandable","%P%","#%%P%"),("expandable","#%a","#%a"),("multistring","a[~]b","a[~]b")):
        one("of type %s and value %r"%(t,v),None,dict(Root="HKLM",Key="A",Type=t,Value=v),2,"A",x)
    c,d=comp(); r=El("registry_value",c,Root="HKLM",Key="A",Type="octal",Value="1",Name="N"); W.refused("a RegistryValue of an unknown type",W.visit(W.start([r]),r))
@case
def progids(W):
    def tree(**a):
        c,d=comp(); p=El("prog_id",c,Id="My.1",Description="Mine",**a); e=El("extension",p,Id="my",ContentType="text/my"); v=El("verb",e,Id="open",TargetFile="F1",Argument='"%1"'); m=El("mime",e,ContentType="app/x"); return c,p,e,v,m
    R=lambda key,name,value:("registry_add",{"Root":0,"Key":key,"Component":"Comp","Name":name,"Value":value})
    for a in({},{"Advertise":"no"}):
        c,p,e,v,m=tree(**a); st=W.start([c])
        W.expect("a ProgId",W.visit(st,p),[R("My.1",None,"Mine")])
        W.expect("an Extension",W.visit(st,e),[R(".my","Content Type","text/my"),R(".my",None,"My.1")])
        W.expect("a Verb",W.visit(st,v),[R("My.1\\shell\\open",None,"Open"),R("My.1\\shell\\open\\command",None,'"[#F1]" "%1"')])
        W.expect("a MIME",W.visit(st,m),[R("MIME\\Database\\Content Type\\app/x","Extension",".my")])
@case
def features(W):
    disp=[]
    a=El("feature",None,Id="A",Title="TA"); b=El("feature",a,Id="B",Display="expand"); c=El("feature",b,Id="C",Level="3"); d=El("feature",a,Id="D",Display="hidden"); e=El("feature",a,Id="E",Display="11"); f=El("feature",a,Id="F",Display="collapse"); g=El("feature",None,Id="G")
    st=W.start([a,g])
    for x,par,lev,dis in((a,None,1,2),(b,"A",1,3),(c,"B",3,4),(d,"A",1,0),(e,"A",1,11),(f,"A",1,12)):
        st=W.expect("the feature %s"%x.a["Id"],W.visit(st,x,"ENTER"),[("feature_add",{"Feature":x.a["Id"],"Parent":par,"Level":lev,"Display":dis,"Attributes":0})])
    st=W.expect("the end of a nested feature",W.visit(st,f,"LEAVE"),[])
    st=W.expect("the end of a feature",W.visit(st,a,"LEAVE"),[])
    W.expect("a second root feature",W.visit(st,g,"ENTER"),[("feature_add",{"Feature":"G","Display":2})])
@case
def components(W):
    def one(what,arch=0,guid="*",key=None,default=None,attr=0,uuid="<uuid of Comp>",kp=None,**a):
        c,d=comp(Guid=guid,**a); x=El(key or "file",c,Id="KEY") if key or default else None
        if key: c.key=x
        y=El(default,c,Id="DEF") if default else None
        st=W.start([c]); st=W.expect("the start of "+what,W.visit(st,c,"ENTER"),[])
        if y: m=dict(st[0]); m[(BP,W.b["component_default_key"])]=W.addr(y); st=(m,st[1])
        W.expect(what,W.visit(st,c,"LEAVE"),[("component_add",{"Component":"Comp","ComponentId":uuid,"Directory":"DIR","Attributes":attr,"KeyPath":"KEY" if key else "DEF" if default else None})])
    one("a component"); one("a component with a file as key",key="file"); one("a component with a registry value as key",key="registry_value",attr=4)
    one("a component with a first registry value",default="registry_value",attr=4); one("a component with a first file",default="file"); one("a component with a key and a first registry value",key="file",default="registry_value")
    one("a component with a GUID",guid="ab-c",uuid="{AB-C}"); one("a component with a GUID in braces",guid="{ab-c}",uuid="{AB-C}"); one("a component with an empty GUID",guid="",uuid=None)
    P=W.P
    X64,IA64,X86=(P.enum("WIXL_ARCH_"+x) for x in("X64","IA64","X86"))
    for ar,w64,v in((X86,None,0),(X64,None,256),(IA64,None,256),(X64,"no",0),(X86,"yes",256),(X86,"no",0)): one("a component with Win64=%s for architecture %d"%(w64,ar),arch=ar,attr=v,**({"Win64":w64} if w64 else {})) if False else arched(W,ar,w64,v)
    one("a permanent component",attr=16,Permanent="yes"); one("a component that is not permanent",Permanent="no")
    # groups
    d=El("directory",None,Id="GDIR"); g=El("component_group",None,Id="CG",Directory="GDIR"); c=El("component",g,Id="Comp",Guid="*"); st=W.start([d,g])
    W.expect("a component of a group",W.visit(st,c,"LEAVE"),[("component_add",{"Directory":"GDIR"})])
    d=El("directory",None,Id="RD"); r=d.ref("directory_ref",Id="RD"); c=El("component",r,Id="Comp",Guid="*"); st=W.start([r])
    W.expect("a component of a DirectoryRef",W.visit(st,c,"LEAVE"),[("component_add",{"Directory":"RD"})])
def arched(W,ar,w64,v):
    c,d=comp(**({"Win64":w64} if w64 else {})); W.expect("a component with Win64=%s for architecture %d"%(w64,ar),W.visit(W.start([c],ar),c,"LEAVE"),[("component_add",{"Attributes":v})])
@case
def keys(W):
    def seq(els):
        c,d=comp(); r=[El(x,c,Id="E%d"%i,Name="n%d"%i,Root="HKLM",Key="K",Type="string",Value="v",**({"KeyPath":kp} if kp else {})) for i,(x,kp) in enumerate(els)]
        st=W.start([c]); n,err,st=W.visit(st,c,"ENTER"); errs=[]
        for e in r: n,err,st=W.visit(st,e); errs.append(err)
        return c,st,errs
    for what,els,want in(("a file",[("file",None)],"E0"),("two files",[("file",None),("file",None)],"E0"),("two files, the second as key",[("file",None),("file","yes")],"E1"),("a file and a registry value as key",[("file",None),("registry_value","yes")],"E1"),("a key and a file",[("file","yes"),("file",None)],"E0"),("a registry value and a file",[("registry_value",None),("file",None)],"E0"),("three files, the second as key",[("file","no"),("file","yes"),("file","no")],"E1")):
        c,st,errs=seq(els)
        if any(errs): W.find("keys","a component with %s is refused"%what); continue
        W.expect("a component with "+what,W.visit(st,c,"LEAVE"),[("component_add",{"KeyPath":want,"Attributes":4 if els[int(want[1])][0]=="registry_value" else 0})])
    c,st,errs=seq([("file","yes"),("file","yes")]); W.ctx.ok()
    if errs!=[False,True]: W.find("keys","two key paths of a component are not refused")
@case
def refs(W):
    c1,d=comp(); c2=El("component",d,Id="C2",Guid="*"); f=El("feature",None,Id="F"); f2=El("feature",None,Id="F2")
    r1=c1.ref("component_ref",f,Id="Comp"); r2=c1.ref("component_ref",f2,Id="Comp"); r3=c1.ref("component_ref",f,Id="Comp")
    st=W.start([f,f2,c2]); R=lambda f,c:("feature_components_add",{"Feature":f,"Component":c})
    st=W.expect("a ComponentRef",W.visit(st,r1),[R("F","Comp")]); st=W.expect("a ComponentRef of a second feature",W.visit(st,r2),[R("F2","Comp")]); W.expect("a repeated ComponentRef",W.visit(st,r3),[])
    g=El("component_group",None,Id="G"); g2=El("component_group",None,Id="G2"); x=c1.ref("component_ref",g,Id="Comp"); g2.ref("component_group_ref",g,Id="G2"); c3=El("component",g2,Id="C3",Guid="*"); c2.ref("component_ref",g2,Id="C2")
    gr=g.ref("component_group_ref",f,Id="G"); st=W.start([f,g,g2,c1,c2])
    W.expect("a ComponentGroupRef",W.visit(st,gr),[R("F","Comp"),R("F","C3"),R("F","C2")])
    W.expect("a ComponentRef in a group",W.visit(st,x),[])
@case
def directories(W):
    p=El("product",None,Id="P"); t=El("directory",p,Id="TARGETDIR",Name="SourceDir"); d=El("directory",t,Id="PF"); e=El("directory",d,Id="X",Name="x|long"); r=d.ref("directory_ref",None,Id="PF"); h=El("directory",r,Id="Y",Name="y"); bad=El("directory",p,Id="OTHER",Name="z"); fr=El("fragment",None,Id="Fr"); t2=El("directory",fr,Id="TARGETDIR",Name="s")
    st=W.start([p,h,fr]); D=lambda i,par,n:[("directory_add",{"Directory":i,"Parent":par,"DefaultDir":n})]
    for x,w in((t,D("TARGETDIR",None,"SourceDir")),(d,D("PF","TARGETDIR",".")),(e,D("X","PF","x|long")),(h,D("Y","PF","y")),(t2,D("TARGETDIR",None,"s"))): W.expect("the directory "+x.a["Id"],W.visit(st,x),w)
    W.refused("a root directory that is not TARGETDIR",W.visit(st,bad))
@case
def products(W):
    p=El("product",None,Id="ab-1",Name="Prod",Manufacturer="Me",Language="1033",Version="1.2.3",UpgradeCode="cd-2",Codepage="1252"); st=W.start([p])
    got=W.visit(st,p); rows={r[1].get("prop"):r[1].get("value") for r in got[0] if r[0]=="property_add"}; W.ctx.ok(); W.ctx.count("rows",len(rows))
    want={"Manufacturer":"Me","ProductLanguage":"1033","ProductCode":"{AB-1}","ProductName":"Prod","ProductVersion":"1.2.3","UpgradeCode":"{cd-2}"}
    if rows!=want: W.find("properties","a product writes the properties %s instead of %s"%(rows,want))
@case
def packages(W):
    for scope,allusers,src in((None,None,2),("perUser",None,10),("perMachine","1",2)):
        p=El("package",None,Id="*",**({"InstallScope":scope} if scope else {})); got=W.visit(W.start([p]),p); W.ctx.ok(); W.ctx.count("rows")
        r={x[1].get("prop"):x[1].get("value") for x in got[0] if x[0]=="property_add"}
        if r.get("ALLUSERS")!=allusers: W.find("allusers","a package with InstallScope=%s gives ALLUSERS the value %s instead of %s"%(scope,r.get("ALLUSERS"),allusers))
@case
def media(W):
    for emb,cab in(("yes","#a.cab"),("no","a.cab"),(None,"a.cab")):
        x=El("media",None,Id="1",Cabinet="a.cab",DiskPrompt="Disk",**({"EmbedCab":emb} if emb else {}))
        W.expect("a Media with EmbedCab=%s"%emb,W.visit(W.start([x]),x),[("media_add",{"DiskId":"1","DiskPrompt":"Disk","Cabinet":cab})])
@case
def files(W):
    def one(what,name,size=1234,ver=None,**a):
        c,d=comp(); f=El("file",c,Id="F1",**a); W.expect(what,W.visit(W.start([f]),f),[("file_add",{"File":"F1","Component":"Comp","FileSize":size,"Attributes":512,"Version":ver})])
    one("a file","a.txt",Name="a.txt",Source="s/a.txt"); one("a file with a version","a",Name="a",ver="1.0",DefaultVersion="1.0"); one("a companion file","a",Name="a",ver="F2",CompanionFile="F2",DefaultVersion="1.0")
@case
def folders(W):
    c,d=comp(); x=El("create_folder",c,Id="cf"); W.expect("a CreateFolder",W.visit(W.start([x]),x),[("create_folder_add",{"Directory":"DIR","Component":"Comp"})])
    for on,v in(("install",1),("uninstall",2),("both",3)):
        c,d=comp(); x=El("remove_folder",c,Id="rf",On=on); W.expect("a RemoveFolder on "+on,W.visit(W.start([x]),x),[("remove_file_add",{"FileKey":"rf","Component":"Comp","DirProperty":"DIR","InstallMode":v})])
@case
def services(W):
    for deps,want in(([],None),([("a",None)],"a[~][~]"),([("a",None),("g","yes"),("b","no")],"a[~]+g[~]b[~][~]")):
        c,d=comp(); x=El("service_install",c,Id="S",Name="svc",Start="auto",ErrorControl="normal",Type="ownProcess"); ds=[El("service_dependency",x,Id=i,**({"Group":g} if g else {})) for i,g in deps]
        st=W.start([x]); n,e,st=W.visit(st,x,"ENTER")
        for y in ds: n,e,st=W.visit(st,y)
        W.expect("a service with the dependencies %s"%[i for i,g in deps],W.visit(st,x,"LEAVE"),[("service_install_add",{"ServiceInstall":"S","Name":"svc","ServiceType":16,"StartType":2,"ErrorControl":1,"Dependencies":want,"Component":"Comp"})])
    for a,want in(({"Interactive":"yes"},{"ServiceType":272}),({"EraseDescription":"yes","Description":"x"},{"Description":"[~]"}),({"Description":"x"},{"Description":"x"})):
        c,d=comp(); x=El("service_install",c,**dict(dict(Id="S",Name="svc",Start="auto",ErrorControl="normal",Type="ownProcess"),**a)); st=W.start([x]); n,e,st=W.visit(st,x,"ENTER")
        W.expect("a service with %s"%list(a),W.visit(st,x,"LEAVE"),[("service_install_add",want)])
    for args,want in(([],None),(["a"],"a"),(["a","b c"],"a[~]b c")):
        for a,ev in(({},0),({"Start":"install","Stop":"both"},0x23),({"Remove":"uninstall","Stop":"uninstall"},0xa0),({"Remove":"both","Start":"both"},0x99)):
            c,d=comp(); x=El("service_control",c,Id="SC",Name="svc",**a); ys=[El("service_argument",x,Id="arg",text=t) for t in args]
            st=W.start([x]); n,e,st=W.visit(st,x,"ENTER")
            for y in ys: n,e,st=W.visit(st,y)
            W.expect("a ServiceControl with the arguments %s"%args,W.visit(st,x,"LEAVE"),[("service_control_add",{"ServiceControl":"SC","Name":"svc","Event":ev,"Arguments":want,"Component":"Comp"})])
@case
def upgrades(W):
    u=El("upgrade",None,Id="ab-c"); xs=[El("upgrade_version",u,Minimum="1",Maximum="2",Property="P%d"%i,**a) for i,a in enumerate(({},{"OnlyDetect":"yes","IncludeMinimum":"no"},{"IncludeMaximum":"yes","MigrateFeatures":"yes"}))]
    for n in(0,1,2,3):
        st=W.start([u])
        for x,at in list(zip(xs,(256,2,769)))[:n]: st=W.expect("an UpgradeVersion",W.visit(st,x),[("upgrade_add",{"UpgradeCode":"{AB-C}","VersionMin":"1","VersionMax":"2","Attributes":at,"ActionProperty":x.a["Property"]})])
        W.expect("the end of a source with %d UpgradeVersions"%n,W.visit(st,None,fn="wixl_wix_builder_property_update"),[("property_add",{"prop":"SecureCustomProperties","value":";".join("P%d"%i for i in range(n))})] if n else [])
@case
def shortcuts(W):
    f=El("feature",None,Id="Feat"); c,d=comp(); c.feats=[f]
    x=El("shortcut",c,Id="S",Name="n",Target="[T]"); st=W.start([x,f]); W.expect("a Shortcut",W.visit(st,x),[("shortcut_add",{"Shortcut":"S","Directory":"DIR","Name":"n","Component":"Comp"}),("shortcut_set_target",{"Target":"[T]"})])
    x=El("shortcut",c,Id="S",Name="n",Directory="DD",Icon="ico",IconIndex="3",WorkingDirectory="WD",Description="de",Arguments="ar"); st=W.start([x,f])
    W.expect("a Shortcut with attributes",W.visit(st,x),[("shortcut_add",{"Directory":"DD"}),("shortcut_set_icon",{"Icon":"ico"}),("shortcut_set_icon_index",{"IconIndex":3}),("shortcut_set_working_dir",{"WkDir":"WD"}),("shortcut_set_description",{"Description":"de"}),("shortcut_set_arguments",{"Arguments":"ar"})])
@case
def inis(W):
    for ac,tab,v in(("addLine","ini_file_add",0),("createLine","ini_file_add",1),("addTag","ini_file_add",3),("removeLine","remove_ini_file_add",2),("removeTag","remove_ini_file_add",4)):
        c,d=comp(); x=El("ini_file",c,Id="I",Name="f.ini",Directory="D",Section="s",Key="k",Value="v",Action=ac)
        W.expect("an IniFile with "+ac,W.visit(W.start([x]),x),[(tab,{"FileName":"f.ini","DirProperty":"D","Section":"s","Key":"k","Value":"v","Action":v,"Component":"Comp"})])
@case
def conditions(W):
    x=El("condition",None,Message="msg"); El("text",x,text="  A = 1\n"); W.expect("a Condition",W.visit(W.start([x]),x),[("launch_condition_add",{"condition":"A = 1","description":"msg"})])
@case
def searches(W):
    P=W.P; X64,X86=P.enum("WIXL_ARCH_X64"),P.enum("WIXL_ARCH_X86")
    for ar,w64,ty,v in((X86,None,"raw",2),(X86,None,"directory",0),(X86,None,"file",1),(X64,None,"raw",18),(X64,"no","file",1),(X86,"yes","raw",18)):
        p=El("property",None,Id="PROP"); x=El("registry_search",p,Id="RS",Root="HKLM",Key="k",Name="n",Type=ty,**({"Win64":w64} if w64 else {}))
        W.expect("a RegistrySearch",W.visit(W.start([p],ar),x),[("app_search_add",{"Property":"PROP","Signature":"RS"}),("reg_locator_add",{"Signature":"RS","Root":2,"Key":"k","Name":"n","Type":v})])
