"""Text archives: the functions that write and read them are interpreted at the level of bits, the C string functions included,
on every kind of column, every shape of short line and every character, and compared with the documented text format."""
from steps import *
from cmodel import *
import itertools
MINIMUM={"column kinds":40,"line shapes":300,"characters":200}
VALID,LOC,STR,NULLABLE,KEY,TEMP,UNK=0x100,0x200,0x800,0x1000,0x2000,0x4000,0x8
ST="_LibmsiDatabase"
def hk(f): return f
def run(ctx):
    P=ctx.prog("libmsi")
    letters(ctx,P); create(ctx,P); fields(ctx,P); escape(ctx,P); lines(ctx,P); record(ctx,P); export(ctx,P); imports(ctx,P); rows(ctx,P); info(ctx,P); keys(ctx,P); statement(ctx,P); codepage(ctx,P); iterate(ctx,P)
    ctx.rule("For every kind of column the exported letter and number, and the SQL words and value kind they are imported as, are those of the format; lines and fields are split where the format says, and every character comes back as the one exported; header lines, rows and fields are written and read in their order.")
    ctx.assume=["Text is in the encoding of the library (UTF-8) throughout; \\x10, \\x11 and \\x19 in data stand for tab, carriage return and line feed."]
def fn(ctx,P,n):
    F=ctx.need(P.fn(n),n+" not found"); ctx.fns([n]); return F,P.loc(F.blocks[0].insts[0])
def letters(ctx,P):
    F,loc=fn(ctx,P,"msi_set_record_type_string")
    for bits in itertools.product((0,LOC),(0,STR),(0,NULLABLE),(0,KEY),(0,1)):
        loc_,st,nu,key,tmp=bits
        for n in(0,2,4,72,255):
            t=VALID|loc_|st|nu|key|n
            if not st and(n not in(2,4) or loc_): continue
            binary=(t&~nu)==(STR|VALID)
            if tmp and (binary or loc_): continue
            want="v" if binary else "l" if loc_ else ("g" if tmp else "s") if st else ("j" if tmp else "i")
            want=(want.upper() if nu else want)+str(n)
            M=CModel(P,{"libmsi_record_set_string":lambda I,a,m,w:(w.append((("event","set"),(k(a[1]),M.str(m,a[2])),I)),C(1))[1]})
            for kd,b,v,e,w in Region(P,F,{},M.calls,4000,M.loads).run(0,{("a",0):("REC",0),("a",1):C(3),("a",2):C(t),("a",3):C(tmp)}):
                ctx.count("column kinds"); ev=events(w,"set")
                if ev!=[(3,want)]: ctx.find("letter:%x:%d"%(t,tmp),loc,"a column of type %#06x%s is exported as %s instead of %s"%(t," (temporary)" if tmp else "",ev[0][1] if ev else None,want))
                ctx.ok("%s: %s"%(loc,want)) if ev==[(3,want)] else None
                if M.outside(F,e.get("mem",{}),w): ctx.find("letter:room",loc,"the type of a column is written outside of its buffer")
def create(ctx,P):
    F,loc=fn(ctx,P,"msi_build_createsql_columns")
    words={"s":"CHAR(%s) NOT NULL","S":"CHAR(%s)","l":"CHAR(%s) NOT NULL LOCALIZABLE","L":"CHAR(%s) LOCALIZABLE","v":"OBJECT NOT NULL","V":"OBJECT"}
    cases=[(c+n,words[c]%n if "%" in words[c] else words[c]) for c in "sSlLvV" for n in("0","72","255")]
    cases+=[("i2","INT NOT NULL"),("I2","INT"),("i4","LONG NOT NULL"),("I4","LONG"),("i8",None),("x1",None)]
    def go(types,names):
        M=CModel(P); m={}
        for i,(t,n) in enumerate(zip(types,names)):
            m[("TYPES",8*i)]=("T%d"%i,0); m[("COLS",8*i)]=("N%d"%i,0)
            for base,x in(("T%d"%i,t),("N%d"%i,n)):
                for j,c in enumerate(x.encode()+b"\0"): m[(base,j)]=C(c,8)
        R=Region(P,F,m,M.calls,20000,M.loads)
        for o in R.run(0,{("a",0):("COLS",0),("a",1):("TYPES",0),("a",2):C(len(types))}): yield M,o
    for c in cases:
        for pos in range(2):
            ts=[c,("i2","INT NOT NULL")] if pos==0 else [("i2","INT NOT NULL"),c]; got=0
            for M,(kd,b,v,e,w,*r) in go([t for t,_ in ts],["Column.A","b"]):
                m=e['mem']
                if v==("null",0):
                    continue
                got+=1; ctx.count("column kinds"); t=M.str(m,v)
                if c[1] is None: ctx.find("create:%s"%c[0],loc,"a column of unknown type %s is imported as %s"%(c[0],t)); continue
                want=["`%s` %s"%(n,x) for n,(_,x) in zip(("Column.A","b"),ts)]
                g=[norm(x) for x in split(t)] if t is not None else None
                if g!=[norm(x) for x in want]: ctx.find("create:%s"%c[0],loc,"a column of type %s is created as %s instead of %s"%(c[0],g,want))
                o=M.outside(F,m,w)
                if o: ctx.find("create:room",P.loc(o[0][2]),"the definition of the columns is written outside of its buffer")
            if c[1] is not None and not got: ctx.find("create:%s"%c[0],loc,"a column of type %s cannot be imported"%c[0])
def norm(t):
    """words of a column definition, the ones after the type in any order"""
    h=t.replace(" (","(").split()
    return (h[:2],tuple(sorted(" ".join(h[2:]).replace("NOT NULL","NOTNULL").split())))
def split(t): return [x.strip() for x in t.split(",")]
def fields(ctx,P):
    """one field of an imported row: the kind of value the column's letter asks for"""
    F,loc=fn(ctx,P,"construct_record")
    for c in "sSlLiIvVxgj":
        for data in("12","-7","0","32767","-2147483647",""):
            M=CModel(P); 
            def sets(I,a,m,w): w.append((("event","str"),(a[0],k(a[1]),a[2]),I)); return C(1)
            def seti(I,a,m,w): w.append((("event","int"),(a[0],k(a[1]),k(a[2])),I)); return C(1)
            def stm(I,a,m,w): w.append((("event","stream"),(a[0],k(a[1]),a[2]),I)); return C(0)
            def path(I,a,m,w): w.append((("event","path"),(a[0],a[1]),I)); return ("PATH",0)
            M.calls.update({"libmsi_record_new":lambda I,a:("REC",0),"libmsi_record_set_string":sets,"libmsi_record_set_int":seti,"_libmsi_record_load_stream_from_file":stm,"g_build_filename":path})
            m={("TYPES",0):("T0",0),("TYPES",8):("T1",0),("DATA",0):("D0",0),("DATA",8):("D1",0)}
            for b,x in(("T0","i2"),("T1",c+"2"),("D0","5"),("D1",data)):
                for j,ch in enumerate(x.encode()+b"\0"): m[(b,j)]=C(ch,8)
            for kd,b,v,e,w in Region(P,F,m,M.calls,20000,M.loads).run(0,{("a",0):C(2),("a",1):("TYPES",0),("a",2):("DATA",0),("a",3):("TABLE",0),("a",4):("OUT",0)}):
                ctx.count("column kinds"); ev=[(a[1],x) for a,x,I in w if a[0]=="event" and a[1] in("str","int","stream")]; ok=k(v)==0
                if not ok:
                    if c in "sSlLiIvV": ctx.find("field:%s"%c,loc,"a row with a column of type %s cannot be imported"%c)
                    continue
                if c in "xgj": ctx.find("field:%s"%c,loc,"a row with a column of unknown type %s is imported"%c); continue
                want=[("int",(("REC",0),1,5))]
                if c in "sSlL": want.append(("str",(("REC",0),2,("D1",0))))
                elif c in "iI" and data: want.append(("int",(("REC",0),2,int(data)&0xffffffff)))
                elif c in "vV" and data: want.append(("stream",(("REC",0),2,("PATH",0))))
                if data=="" and c in "sSlL" and ev==want[:1]: continue
                if ev!=want: ctx.find("field:%s"%c,loc,"the text '%s' of a column of type %s becomes %s"%(data,c,ev[1:] or "nothing"))
                if c in "vV" and data and events(w,"path")!=[(("TABLE",0),("D1",0))]: ctx.find("field:path",loc,"a stream is not loaded from the file the row names in the folder of its table")
                o=next((x for a,x,I in w if a==("OUT",0)),None)
                if o!=("REC",0): ctx.find("field:out",loc,"the row that was read is not passed on")
SEP={9:0x10,13:0x11,10:0x19}
def escape(ctx,P):
    """each character of a field, exported"""
    F,loc=fn(ctx,P,"msi_export_record")
    G,loc2=fn(ctx,P,"msi_export_summaryinfo")
    def out(txt):
        r=[]
        M=model_export(P,[txt]); 
        for kd,b,v,e,w in Region(P,F,dict(M.m),M.calls,60000,M.loads).run(0,{("a",0):C(9),("a",1):("REC",0),("a",2):C(1),("a",3):("DIR",0),("a",4):("null",0)}):
            if kd=="ret" and k(v)==0: r.append("".join(x or "?" for x in events(w,"write")))
        return r
    for c in range(1,256):
        ctx.count("characters"); r=out(bytes([97,c]))
        want=chr(SEP.get(c,c))
        for t in r:
            x=t[1:2] if t[:1]=="a" else "?"
            if x!=want or t[2:]!="\r\n": ctx.find("escape:%d"%c,loc,"the character %d of a field is exported as %s instead of %d"%(c,[ord(y) for y in t[1:].rstrip("\r\n")],ord(want)))
        if not r: ctx.find("escape:none",loc,"a field is not exported")
def lat(M,m,p,n=None):
    t=M.text(m,p)
    if t is None or any(x.const() is None for x in t): return None
    s="".join(chr(x.const()) for x in t)
    return s if n is None else s[:n]
def model_export(P,texts,streams=(),start=1):
    M=CModel(P); M.m={}
    for i,t in enumerate(texts):
        for j,c in enumerate((t if isinstance(t,bytes) else t.encode())+b"\0"): M.m[("F%d"%(start+i),j)]=C(c,8)
    def get(I,a,m,w):
        w.append((("event","get"),k(a[1]),I)); p=M.new(I,m,w,None)
        f=k(a[1])
        j=0
        while ("F%s"%f,j) in m: m[(p[0],j)]=m[("F%s"%f,j)]; j+=1
        return p
    def gsf(I,a,m,w):
        if isinstance(a[2],tuple): m[a[2]]=("IN",k(a[1])) if k(a[1]) in streams else ("null",0)
        return C(0)
    def stream(I,a,m,w):
        p=M.place(m,"stream%s"%a[0][1],("SNAME",a[0][1])); m[a[2]]=p; w.append((("event","stream"),a[0][1],I)); return C(1)
    def wr(I,a,m,w):
        n=k(a[2]); s=lat(M,m,a[1])
        w.append((("event","write"),s[:n] if s is not None and n is not None and n<=len(s)+1 else None,I)); return a[2]
    M.calls.update({"libmsi_record_get_string":get,"_libmsi_record_get_gsf_input":gsf,"msi_export_stream":stream,"write":wr,"libmsi_record_get_field_count":lambda I,a:C(len(texts)+start-1),"g_object_unref":lambda I,a:None})
    return M
def lines(ctx,P):
    """every short line: the fields, what is left"""
    F,loc=fn(ctx,P,"msi_parse_line")
    A=V([("x",i,0) for i in range(7)]+[0],0x20,0x7f); A.lo,A.hi=0x20,0x7f
    alpha=["a","\t","\r","\n","\0","\x10","\x11","\x19"]
    shapes=[s for n in range(0,5) for s in itertools.product(alpha if n<4 else ["a","\t","\r","\n"],repeat=n)]
    shapes+=[("a","\r","\n","a","\t"),("a","\t","a","\r","\n","a"),("a","\x11","\x19","a","\r","\n")]
    for sh in shapes:
        if sh and sh[-1]=="\0": continue     # trailing zero bytes are not part of the text
        ctx.count("line shapes"); M=CModel(P); m={("LINE",0):("D",0),("LEN",0):C(len(sh))}
        for i,c in enumerate(sh): m[("D",i)]=A if c=="a" else C(ord(c),8)
        m[("D",len(sh))]=C(0,8)
        want,rest=ref(sh)
        for kd,b,v,e,w in Region(P,F,m,M.calls,60000,M.loads).run(0,{("a",0):("LINE",0),("a",1):("ENT",0),("a",2):("NUM",0),("a",3):("LEN",0)}):
            mm=dict(m); 
            for a,x,I in w:
                if isinstance(a,tuple) and a[0]!="event": mm[a]=x
            ent=mm.get(("ENT",0))
            if ent==("null",0): continue
            n=k(mm.get(("NUM",0))); left=k(mm.get(("LEN",0))); ptr=mm.get(("LINE",0))
            name=repr("".join(sh))
            if n!=len(want): ctx.find("line:count",loc,"the line %s has %s fields instead of %d"%(name,n,len(want))); continue
            if left!=rest or ptr!=("D",len(sh)-rest): ctx.find("line:rest",loc,"after the line %s, %s bytes are left instead of %d"%(name,left,rest))
            o=M.outside(F,mm,w)
            if o: ctx.find("line:room",P.loc(o[0][2]),"the fields of a line are stored outside of their array")
            for i,x in enumerate(want):
                p=mm.get((ent[0],8*i)); t=[]
                if not isinstance(p,tuple) or p[0]!="D": ctx.find("line:field",loc,"field %d of the line %s is not set"%(i+1,name)); break
                j=p[1]
                while isinstance(mm.get(("D",j)),V) and mm[("D",j)].const()!=0: t.append("a" if mm[("D",j)].b==A.b else chr(mm[("D",j)].const() or 255)); j+=1
                if "".join(t)!=x: ctx.find("line:text:%s"%("special" if any(c in "\0\x10\x11\x19" for c in sh) else "plain"),loc,"field %d of the line %s is read as %r instead of %r"%(i+1,name,"".join(t),x))
BACK={"\0":"\n","\x10":"\t","\x11":"\r","\x19":"\n"}
def ref(sh):
    """fields of the first line of a text, and how much of the text is left after it"""
    s="".join(sh); i=0
    e=s.find("\n"); first=s if e<0 else s[:e]
    n=first.count("\t")+1; out=[]; pos=0
    for f in range(n):
        while pos<len(s) and s[pos]=="\r": pos+=1
        st=pos
        while pos<len(s) and s[pos] not in "\t\r\n": pos+=1
        out.append("".join(BACK.get(c,c) for c in s[st:pos]))
        if pos<len(s):
            if s[pos]=="\t": pos+=1
            else:
                while pos<len(s) and s[pos] in "\r\n": pos+=1
    return out,len(s)-pos
def record(ctx,P):
    F,loc=fn(ctx,P,"msi_export_record")
    for start in(0,1):
        for streams in((),(2,)):
            texts=["one","two","three"]; M=model_export(P,texts,streams,start); n=0
            for kd,b,v,e,w in Region(P,F,dict(M.m),M.calls,60000,M.loads).run(0,{("a",0):C(9),("a",1):("REC",0),("a",2):C(start),("a",3):("DIR",0),("a",4):("null",0)}):
                ctx.ok()
                if kd!="ret" or k(v)!=0: continue
                n+=1; t="".join(x or "?" for x in events(w,"write")); l=[("stream%d"%(start+i) if start+i in streams else x) for i,x in enumerate(texts)]
                if t!="\t".join(l)+"\r\n": ctx.find("record:text",loc,"a row of the fields %s is written as %r"%(l,t))
            if not n: ctx.find("record:none",loc,"a row is not written")
def onerow(ctx,P,cells):
    F,loc=fn(ctx,P,"msi_export_row")
    def rec(I,a,m,w): w.append((("event","row"),(k(a[0]),a[1],k(a[2]),a[3],a[4]),I)); return C(7)
    hook=lambda p,I,n,mm:cells.get(p[0][3] if isinstance(p[0],tuple) and len(p[0])==4 else p[1])
    for kd,b,v,e,w in Region(P,F,{},{"msi_export_record":rec},4000,hook).run(0,{("a",0):("REC",0),("a",1):("ARG",0)}):
        ctx.ok(); ev=events(w,"row")
        if ev!=[(9,("REC",0),1,("DIR",0),("ERR",0))]: ctx.find("row",loc,"a row of the table is not written to the file, from its first field on")
        if k(v)!=7: ctx.find("row:result",loc,"the result of writing a row is not passed on")
def export(ctx,P):
    F,loc=fn(ctx,P,"_libmsi_database_export")
    en={n:P.enum(n) for n in("LIBMSI_COL_INFO_NAMES","LIBMSI_COL_INFO_TYPES")}
    def ev(n,f):
        def h(I,a,m,w): w.append((("event","step"),(n,)+tuple(f(a,m)),I)); return C(0)
        return h
    M=CModel(P); last=[None]
    def info_(I,a,m,w): w.append((("event","step"),("info",k(a[1])),I)); m[a[2]]=("INFO",k(a[1])); return C(0)
    def pk(I,a,m,w): w.append((("event","step"),("keys",a[1]),I)); m[a[2]]=("KEYS",0); return C(0)
    def qopen(I,a,m,w): m[a[1]]=("VIEW",0); w.append((("event","step"),("open",M.str(m,a[2]),M.str(m,a[3]) if len(a)>3 else None),I)); return C(0)
    cells={}
    def itrows(I,a,m,w):
        w.append((("event","step"),("rows",a[0],a[2]),I))
        for q,x in m.items():
            if isinstance(q[0],tuple) and len(q[0])==4 and q[0][0]==a[3]: cells[q[0][3]]=x
            elif q[0]==a[3][0]: cells[q[1]]=x
        return C(0)
    M.calls.update({"_libmsi_query_open":qopen,"_libmsi_query_get_column_info":info_,"_libmsi_database_get_primary_keys":pk,"libmsi_record_set_string":ev("name",lambda a,m:(a[0],k(a[1]),a[2])),
      "msi_export_record":ev("record",lambda a,m:(a[1],k(a[2]))),"_libmsi_query_iterate_records":itrows,"g_object_unref":lambda I,a:None,"g_file_new_for_path":lambda I,a:("DIR",0),
      "msi_export_forcecodepage":ev("codepage",lambda a,m:(a[1],)),"msi_export_summaryinfo":ev("suminfo",lambda a,m:(a[0],)),"msi_get_string_table_codepage":lambda I,a:sym("cp",16)})
    for table in("Some Table","_ForceCodepage","_SummaryInformation"):
        m={}
        for j,c in enumerate(table.encode()+b"\0"): m[("T",j)]=C(c,8)
        for kd,b,v,e,w in Region(P,F,m,M.calls,20000,M.loads).run(0,{("a",0):("DB",0),("a",1):("T",0),("a",2):C(9),("a",3):("ERR",0)}):
            ctx.ok(); ev_=events(w,"step")
            if table=="_ForceCodepage":
                if [x[0] for x in ev_]!=["codepage"] or not bits_eq(ev_[0][1],sym("cp",16)): ctx.find("export:codepage",loc,"the codepage is not exported as such")
                continue
            if table=="_SummaryInformation":
                if [x[0] for x in ev_]!=["suminfo"]: ctx.find("export:suminfo",loc,"the summary information is not exported as such")
                continue
            want=[("info",en["LIBMSI_COL_INFO_NAMES"]),("record",("INFO",en["LIBMSI_COL_INFO_NAMES"]),1),("info",en["LIBMSI_COL_INFO_TYPES"]),("record",("INFO",en["LIBMSI_COL_INFO_TYPES"]),1),("keys",("T",0)),("name",("KEYS",0),0,("T",0)),("record",("KEYS",0),0)]
            g=[x for x in ev_ if x[0] not in("open","rows")]
            recs=[x for x in g if x[0]=="record"]
            if recs!=[x for x in want if x[0]=="record"]: ctx.find("export:header",loc,"the first three lines are not the names, types and keys of the table")
            if sorted(map(str,g))!=sorted(map(str,want)): ctx.find("export:header",loc,"the first three lines are not made of the names, types and keys of the table")
            op=[x for x in ev_ if x[0]=="open"]; rw=[x for x in ev_ if x[0]=="rows"]
            if not op or op[0][1] is None or op[0][1].lower().replace("`","").split()!=["select","*","from","%s"] or op[0][2]!=table: ctx.find("export:query",loc,"the rows exported are not those of the table")
            if not rw or rw[0][1]!=("VIEW",0) or rw[0][2]!=(("g","msi_export_row"),0) or ev_.index(rw[0])<max(i for i,x in enumerate(ev_) if x[0]=="record"): ctx.find("export:rows",loc,"the rows are not written after the header")
    onerow(ctx,P,cells)
def imports(ctx,P):
    """the whole import of a text with two rows"""
    F,loc=fn(ctx,P,"_libmsi_database_import")
    for table,exists in(("Tab",False),("Tab",True),("_SummaryInformation",False),("_ForceCodepage",False)):
        for bad in(None,"types","short"):
            if bad and table!="Tab": continue
            M=CModel(P); parsed=["columns","types","labels","r0","r1"]
            def parse(I,a,m,w):
                i=sum(1 for x in w if x[0]==("event","parse")); nm=parsed[i] if i<len(parsed) else "extra"
                w.append((("event","parse"),nm,I)); w.append((a[1],(nm,0),I)); m[a[1]]=(nm,0)
                n={"columns":3,"types":2 if bad=="types" else 3,"labels":2,"r0":3,"r1":2 if bad=="short" else 3}.get(nm,3)
                if table=="_ForceCodepage": n={"columns":1,"types":2,"labels":1}.get(nm,1)
                m[a[2]]=C(n); m[a[3]]=C(0 if i>=4 or table=="_ForceCodepage" and i>=2 else 100-i); return None
            def ev(n,idx,ret=0):
                def h(I,a,m,w):
                    rr=[]
                    for x in a:
                        if isinstance(x,tuple) and isinstance(x[0],tuple) and x[0][0]=="heap": rr.append(tuple(m.get((x[0],8*j)) for j in range(2)))
                        else: rr.append(k(x) if isinstance(x,V) else x)
                    w.append((("event","do"),(n,tuple(rr)),I)); return C(ret)
                return h
            def read(I,a,m,w): m[a[1]]=C(1000); return ("TEXT",0)
            M.calls.update({"msi_read_text_archive":read,"msi_parse_line":parse,"table_view_exists":lambda I,a:C(1 if exists else 0,1) if I.ty=="i1" else C(1 if exists else 0),"msi_add_table_to_db":ev("create",0),"msi_add_records_to_table":ev("rows",0),"msi_add_suminfo":ev("suminfo",0),"msi_set_string_table_codepage":ev("codepage",0)})
            m={}
            def txt(b,t):
                for j,c in enumerate(t.encode()+b"\0"): m[(b,j)]=C(c,8)
            if table=="_ForceCodepage":
                for nm in("columns","labels"): m[(nm,0)]=("E"+nm,0); txt("E"+nm,"")
                m[("types",0)]=("CP",0); m[("types",8)]=("FC",0); txt("CP","1252"); txt("FC",table)
            else:
                for nm in("columns","types","labels"):
                    for i in range(3): m[(nm,8*i)]=(nm+str(i),0); txt(nm+str(i),table if (nm,i)==("labels",0) else nm[:1]+str(i))
            for kd,b,v,e,w in Region(P,F,m,M.calls,20000,M.loads).run(0,{("a",0):("DB",0),("a",1):("PATH",0)}):
                d=events(w,"do"); ctx.ok(); ok=k(v)==0
                if bad:
                    if ok or any(x[0]=="rows" for x in d): ctx.find("import:%s"%bad,loc,"a text with %s is imported"%("another number of types than of columns" if bad=="types" else "a row that has too few fields"))
                    continue
                if not ok: continue      # allocation failures
                names=[x[0] for x in d]; last=d[-1][1] if d else ()
                if table=="_ForceCodepage":
                    if names!=["codepage"] or last[1]!=1252: ctx.find("import:codepage",loc,"the codepage in a text is not what is set")
                    continue
                if table=="_SummaryInformation":
                    if names!=["suminfo"] or last[1:]!=((("r0",0),("r1",0)),2,3): ctx.find("import:suminfo",loc,"the rows of the summary information are not imported as such")
                    continue
                if names!=(["rows"] if exists else ["create","rows"]): ctx.find("import:steps",loc,"importing %s table does %s"%("an existing" if exists else "a new",names)); continue
                if not exists and d[0][1][1:]!=(("columns",0),("types",0),("labels",0),2,3): ctx.find("import:create",loc,"the table is not created from the names, types and keys in the text")
                a=last
                if a[1:]!=(("columns",0),("types",0),("labels",0),(("r0",0),("r1",0)),3,2): ctx.find("import:rows",loc,"the rows added are not those of the text: %s"%(a[1:],))
                o=M.outside(F,{},w)
                if o: ctx.find("import:room",P.loc(o[0][2]),"the rows of the text are stored outside of their array")
def rows(ctx,P):
    F,loc=fn(ctx,P,"msi_add_records_to_table")
    for nrec in(0,1,2):
        for ncol in(2,3,4):
            M=CModel(P)
            def dims(I,a,m,w):
                for x,n in((a[1],3),(a[2],3)):
                    if isinstance(x,tuple) and x[0]!="null": m[x]=C(n)
                return C(0)
            def create(I,a,m,w): m[a[2]]=("VIEW",0); w.append((("event","view"),a[1],I)); return C(0)
            def cons(I,a,m,w): i=sum(1 for x in w if x[0]==("event","row")); w.append((("event","row"),(k(a[0]),a[1],a[2],a[3]),I)); m[a[4]]=("REC",i); return C(0)
            def dele(I,a,m,w): w.append((("event","del"),k(a[1]),I)); return C(0)
            def ins(I,a,m,w): w.append((("event","ins"),(a[1],k(a[2]),k(a[3])),I)); return C(0)
            M.calls.update({"table_view_create":create,"_LibmsiViewOps->get_dimensions":dims,"_LibmsiViewOps->delete_row":dele,"_LibmsiViewOps->insert_row":ins,"construct_record":cons,"g_object_unref":lambda I,a:None})
            m={("LABELS",0):("L0",0),("LABELS",8):("L1",0)}
            for i in range(3): m[("RECS",8*i)]=("R%d"%i,0)
            seen=0
            for kd,b,v,e,w in Region(P,F,m,M.calls,20000,M.loads).run(0,{("a",0):("DB",0),("a",1):("COLS",0),("a",2):("TYPES",0),("a",3):("LABELS",0),("a",4):("RECS",0),("a",5):C(ncol),("a",6):C(nrec)}):
                ctx.ok(); ok=k(v)==0
                if ncol>3:
                    if ok or events(w,"ins") or events(w,"del"): ctx.find("rows:wide",loc,"rows with more columns than the table are imported")
                    continue
                if not ok: continue
                seen+=1
                if events(w,"view")!=[("L0",0)]: ctx.find("rows:table",loc,"the rows are not added to the table the text names")
                if sorted(events(w,"del"))!=[0,1,2] or any(x>=3-i for i,x in enumerate(events(w,"del"))): ctx.find("rows:old",loc,"of the rows 0 to 2 that were there, %s are deleted"%events(w,"del"))
                if events(w,"row")!=[(ncol,("TYPES",0),("R%d"%i,0),("L0",0)) for i in range(nrec)]: ctx.find("rows:read",loc,"the rows are not made from the fields of the text, each in its turn")
                if events(w,"ins")!=[(("REC",i),0xffffffff,0) for i in range(nrec)]: ctx.find("rows:insert",loc,"of %d rows, these are added: %s"%(nrec,events(w,"ins")))
            if not seen and ncol<=3: ctx.find("rows:none",loc,"rows cannot be imported")
def info(ctx,P):
    F,loc=fn(ctx,P,"_libmsi_query_get_column_info")
    for what in("LIBMSI_COL_INFO_NAMES","LIBMSI_COL_INFO_TYPES"):
        M=CModel(P); en=P.enum(what)
        def dims(I,a,m,w):
            if isinstance(a[2],tuple): m[a[2]]=C(2)
            return C(0)
        def col(I,a,m,w):
            n=k(a[1]); m[a[2]]=("NAME",n); m[a[3]]=V([("t%s"%n,i,0) for i in range(32)]); m[a[4]]=V([("tmp%s"%n,0,0)]+[0]*7); return C(0)
        def sets(I,a,m,w): w.append((("event","set"),(a[0],k(a[1]),a[2]),I)); return C(1)
        def typ(I,a,m,w): w.append((("event","type"),(a[0],k(a[1]),a[2],a[3]),I)); return None
        M.calls.update({"_LibmsiViewOps->get_dimensions":dims,"_LibmsiViewOps->get_column_info":col,"libmsi_record_set_string":sets,"msi_set_record_type_string":typ,"libmsi_record_new":lambda I,a:("REC",0)}); seen=0
        for kd,b,v,e,w in Region(P,F,{},M.calls,20000,M.loads).run(0,{("a",0):("Q",0),("a",1):C(en),("a",2):("OUT",0)}):
            if k(v)!=0: continue
            seen+=1; ctx.ok(); s,t=events(w,"set"),events(w,"type")
            if next((x for a,x,I in w if a==("OUT",0)),None)!=("REC",0): ctx.find("info:out",loc,"the names and types of the columns are not passed on")
            if what.endswith("NAMES"):
                if t or s!=[(("REC",0),i,("NAME",i)) for i in(1,2)]: ctx.find("info:names",loc,"the names of the columns are given as %s"%s)
            elif s or [(x[0],x[1]) for x in t]!=[(("REC",0),1),(("REC",0),2)] or any(not bits_eq(x[2],V([("t%d"%x[1],i,0) for i in range(32)]),32) or not isinstance(x[3],V) or x[3].b[0]!=("tmp%d"%x[1],0,0) for x in t): ctx.find("info:types",loc,"the types of the columns are not those of the columns")
        if not seen: ctx.find("info:none",loc,"names and types of columns are not given")
def keys(ctx,P):
    F,loc=fn(ctx,P,"msi_primary_key_iterator")
    for key in(0,1):
        for rec in(0,1):
            for n0 in(0,1,4):
                M=CModel(P)
                def geti(I,a): return C(0x1d00|(KEY if key else 0)|0x48) if k(a[1])==4 else C(KEY)
                def sets(I,a,m,w): w.append((("event","set"),(a[0],k(a[1]),a[2]),I)); return C(1)
                M.calls.update({"libmsi_record_get_int":geti,"_libmsi_record_get_string_raw":lambda I,a:("FIELD",k(a[1])),"libmsi_record_set_string":sets})
                hook=lambda p,I,w,m:None if not(isinstance(p[0],tuple) and len(p[0])==4) else (m.get(p,C(n0)) if p[0][3]=="n" else ((("OUTREC",0) if rec else ("null",0)) if p[0][3]=="rec" else None))
                M.own=lambda p,I,w,m:hook(p,I,w,m) or (m.get(p,C(n0)) if p==("INFO",0) and w==32 else None)
                for kd,b,v,e,w in Region(P,F,{},M.calls,4000,M.loads).run(0,{("a",0):("REC",0),("a",1):("INFO",0)}):
                    ctx.ok(); st=[k(x) for a,x,I in w if isinstance(a,tuple) and a[0]!="event" and (a==("INFO",0) or isinstance(a[0],tuple) and len(a[0])==4 and a[0][3]=="n")]
                    s=events(w,"set")
                    if k(v)!=0: ctx.find("keys:stop",loc,"the search for key columns stops")
                    if (st[-1:] or [n0])!=[n0+key]: ctx.find("keys:count",loc,"a column that is %spart of the key makes their number %s instead of %d"%("" if key else "not ",st,n0+key))
                    want=([(("OUTREC",0),0,("FIELD",1))] if n0==0 else [])+[(("OUTREC",0),n0+1,("FIELD",3))] if key and rec else []
                    if s!=want: ctx.find("keys:names",loc,"for key column %d, %s is noted"%(n0+1,s))
    F,loc=fn(ctx,P,"_libmsi_database_get_primary_keys")
    M=CModel(P)
    def qopen(I,a,m,w): m[a[1]]=("Q",0); w.append((("event","open"),(M.str(m,a[2]),a[3] if len(a)>3 else None),I)); return C(0)
    def it(I,a,m,w):
        i=sum(1 for x in w if x[0]==("event","it")); w.append((("event","it"),(a[0],a[2]),I))
        p=a[3]; n=[q for q in m if isinstance(q[0],tuple) and len(q[0])==4 and q[0][3]=="n" and q[0][0]==p]
        for q in (n or [p]): m[q]=C(2)
        return C(0)
    def new(I,a,m,w): w.append((("event","new"),k(a[0]),I)); return ("REC",0)
    M.calls.update({"_libmsi_query_open":qopen,"_libmsi_query_iterate_records":it,"libmsi_record_new":new,"table_view_exists":lambda I,a:C(1,1) if I.ty=="i1" else C(1),"g_object_unref":lambda I,a:None})
    for kd,b,v,e,w in Region(P,F,{},M.calls,4000,M.loads).run(0,{("a",0):("DB",0),("a",1):("T",0),("a",2):("OUT",0)}):
        if k(v)!=0: continue
        ctx.ok(); o=events(w,"open")
        q=o[0][0].replace("`","").lower().split() if o and o[0][0] else []
        if q!=["select","*","from","_columns","where","table","=","'%s'"] or o[0][1]!=("T",0): ctx.find("keys:query",loc,"the key columns are not searched among those of the table")
        if events(w,"it")!=[(("Q",0),(("g","msi_primary_key_iterator"),0))]*2: ctx.find("keys:steps",loc,"the key columns are not counted and then listed")
        if events(w,"new")!=[2]: ctx.find("keys:room",loc,"there is not room for each key column")
        if next((x for a,x,I in w if a==("OUT",0)),None)!=("REC",0): ctx.find("keys:out",loc,"the list of key columns is not passed on")
def statement(ctx,P):
    """CREATE TABLE from its three parts"""
    F,loc=fn(ctx,P,"msi_build_createsql_prelude")
    M=CModel(P); m={}
    for j,c in enumerate(b"Some.Table\0"): m[("T",j)]=C(c,8)
    for kd,b,v,e,w in Region(P,F,m,M.calls,4000,M.loads).run(0,{("a",0):("T",0)}):
        if v==("null",0): continue
        ctx.ok(); t=M.str(e["mem"],v)
        if t is None or t.split()!=["CREATE","TABLE","`Some.Table`","("]: ctx.find("sql:prelude",loc,"the statement for the table Some.Table begins with %r"%t)
        if M.outside(F,{},w): ctx.find("sql:prelude:room",loc,"the statement that creates the table is written outside of its buffer")
    F,loc=fn(ctx,P,"msi_build_createsql_postlude")
    for ks in(["A"],["Key1","b"],["x","yy","zzz"]):
        M=CModel(P); m={}
        for i,x in enumerate(ks):
            m[("K",8*i)]=("K%d"%i,0)
            for j,c in enumerate(x.encode()+b"\0"): m[("K%d"%i,j)]=C(c,8)
        for kd,b,v,e,w in Region(P,F,m,M.calls,8000,M.loads).run(0,{("a",0):("K",0),("a",1):C(len(ks))}):
            if v==("null",0): continue
            ctx.ok(); t=M.str(e["mem"],v)
            if t is None or t.replace(" ","")!="PRIMARYKEY"+",".join("`%s`"%x for x in ks)+")": ctx.find("sql:postlude",loc,"the keys %s become %r"%(ks,t))
            if M.outside(F,{},w): ctx.find("sql:postlude:room",loc,"the keys of the statement are written outside of their buffer")
    F,loc=fn(ctx,P,"msi_add_table_to_db")
    M=CModel(P); parts={"msi_build_createsql_prelude":"PRE ","msi_build_createsql_columns":"COLS ","msi_build_createsql_postlude":"POST)"}
    def part(n):
        def h(I,a,m,w): w.append((("event","part"),(n,tuple(k(x) if isinstance(x,V) else x for x in a)),I)); p=M.new(I,m,w,len(parts[n])+1); M.put(m,w,p,[C(c,8) for c in parts[n].encode()+b"\0"],I); return p
        return h
    for n in parts: M.calls[n]=part(n)
    def query(I,a,m,w): w.append((("event","sql"),(a[0],M.str(m,a[1])),I)); return ("Q",0)
    def exe(I,a,m,w): w.append((("event","exec"),a[0],I)); return C(5)
    M.calls.update({"libmsi_query_new":query,"_libmsi_query_execute":exe,"libmsi_query_close":lambda I,a:C(1),"g_object_unref":lambda I,a:None,"g_clear_error":lambda I,a:None})
    for kd,b,v,e,w in Region(P,F,{("LABELS",0):("L0",0),("LABELS",8):("L1",0)},M.calls,8000,M.loads).run(0,{("a",0):("DB",0),("a",1):("COLS",0),("a",2):("TYPES",0),("a",3):("LABELS",0),("a",4):C(3),("a",5):C(7)}):
        if not events(w,"exec"): continue
        ctx.ok(); p=dict(events(w,"part"))
        if p!={"msi_build_createsql_prelude":(("L0",0),),"msi_build_createsql_columns":(("COLS",0),("TYPES",0),7),"msi_build_createsql_postlude":(("LABELS",8),2)}: ctx.find("sql:parts",loc,"the statement is not made from the table's name, columns and keys")
        if events(w,"sql")!=[(("DB",0),"PRE COLS POST)")]: ctx.find("sql:whole",loc,"the parts of the statement are put together as %s"%(events(w,"sql"),))
        if events(w,"exec")!=[("Q",0)] or k(v)!=5: ctx.find("sql:exec",loc,"the statement is not executed, or its result not passed on")
        if M.outside(F,{},w): ctx.find("sql:room",loc,"the statement is written outside of its buffer")
def codepage(ctx,P):
    F,loc=fn(ctx,P,"msi_read_text_archive")
    for t,n in((b"ab\n",3),(b"ab\n\0",3),(b"a\0b\0\0",3),(b"",0),(b"\0\0",0)):
        M=CModel(P)
        def get(I,a,m,w):
            for j,c in enumerate(t+b"\0"): m[("D",j)]=C(c,8)
            m[a[1]]=("D",0); m[a[2]]=C(len(t),64); w.append((("event","file"),a[0],I)); return C(1)
        M.calls["g_file_get_contents"]=get
        for kd,b,v,e,w in Region(P,F,{},M.calls,4000,M.loads).run(0,{("a",0):("PATH",0),("a",1):("LEN",0)}):
            ctx.ok(); l=next((k(x) for a,x,I in w if a==("LEN",0)),None)
            if v!=("D",0) or l!=n or events(w,"file")!=[("PATH",0)]: ctx.find("text",loc,"of the text %r, %s bytes are read"%(t,l))
    F,loc=fn(ctx,P,"msi_export_forcecodepage")
    for cp in(0,1252,65001,0xffffffff):
        M=CModel(P); 
        def wr(I,a,m,w): w.append((("event","write"),(M.str(m,a[1]),k(a[2])),I)); return a[2]
        M.calls["write"]=wr
        for kd,b,v,e,w in Region(P,F,{},M.calls,4000,M.loads).run(0,{("a",0):C(9),("a",1):C(cp)}):
            if k(v)!=0: continue
            ctx.ok(); t=events(w,"write"); want="\r\n\r\n%d\t_ForceCodepage\r\n"%cp
            if len(t)!=1 or t[0][0]!=want or t[0][1] not in(len(want),len(want)+1): ctx.find("codepage",loc,"the codepage %d is exported as %s"%(cp,t))
            if M.outside(F,{},w): ctx.find("codepage:room",loc,"the codepage is written outside of its buffer")
    F,loc=fn(ctx,P,"msi_export_summaryinfo")
    none=P.enum("OLEVT_EMPTY"); props={2:"Title",7:"x;1033",14:"200",19:"a\tb\r\nc"}
    for sub in({},{2:props[2]},props):
        M=CModel(P)
        def hook(p,I,w,m):
            b=p[0]
            if isinstance(b,tuple) and len(b)==4 and b[1]=="f" and b[3]=="vt" and w==32:
                x=b[0]
                i=x[0][2] if isinstance(x[0],tuple) and len(x[0])==3 and x[0][1]=="at" else 0
                return C(30 if i in sub else none)
            return None
        M.own=hook
        def asstr(I,a,m,w):
            p=M.new(I,m,w,None)
            for j,c in enumerate(sub[k(a[1])].encode()+b"\0"): m[(p[0],j)]=C(c,8)
            return p
        def wr(I,a,m,w):
            n=k(a[2]); t=lat(M,m,a[1]); w.append((("event","write"),t if t is not None and n==len(t) else None,I)); return a[2]
        M.calls.update({"libmsi_summary_info_new":lambda I,a:("SI",0),"summary_info_as_string":asstr,"write":wr,"g_object_unref":lambda I,a:None})
        n=0
        for kd,b,v,e,w in Region(P,F,{},M.calls,20000,M.loads).run(0,{("a",0):("DB",0),("a",1):C(9),("a",2):("ERR",0)}):
            if kd!="ret" or k(v)!=0: continue
            n+=1; ctx.ok(); t="".join(x or "?" for x in events(w,"write")); tr=str.maketrans({chr(a):chr(b) for a,b in SEP.items()})
            want="PropertyId\tValue\r\ni2\tl255\r\n_SummaryInformation\tPropertyId\r\n"+"".join("%d\t%s\r\n"%(i,x.translate(tr)) for i,x in sorted(sub.items()))
            if t!=want: ctx.find("suminfo",loc,"the summary information %s is exported as %r"%(sub,t[-60:]))
        if not n: ctx.find("suminfo:none",loc,"the summary information is not exported")
def iterate(ctx,P):
    F,loc=fn(ctx,P,"_libmsi_query_iterate_records"); NMI=0x7fffffff
    for total in(0,1,3):
        for limit in(None,0,2):
            M=CModel(P)
            def fetch(I,a,m,w):
                i=sum(1 for x in w if x[0]==("event","fetch")); w.append((("event","fetch"),i,I))
                if i>=total: return C(NMI)
                m[a[1]]=("REC",i); return C(0)
            def func(I,a,m,w): w.append((("event","row"),(a[0],a[1]),I)); return C(0)
            M.calls.update({"_libmsi_query_execute":lambda I,a:C(0),"_libmsi_query_fetch":fetch,"libmsi_query_close":lambda I,a:C(1),"g_object_unref":lambda I,a:None,"?":func,"g_clear_error":lambda I,a:None})
            m={} if limit is None else {("COUNT",0):C(limit)}
            for kd,b,v,e,w in Region(P,F,m,M.calls,8000,M.loads).run(0,{("a",0):("Q",0),("a",1):("null",0) if limit is None else ("COUNT",0),("a",2):("FUNC",0),("a",3):("PARAM",0)}):
                ctx.ok(); n=min(total,limit) if limit else total
                if events(w,"row")!=[(("REC",i),("PARAM",0)) for i in range(n)]: ctx.find("iterate",loc,"of %d rows, these are passed on: %s"%(total,[x[0] for x in events(w,"row")]))
                if k(v)!=0: ctx.find("iterate:end",loc,"the end of the rows is not success")
                if limit is not None and k(e["mem"].get(("COUNT",0)))!=n: ctx.find("iterate:count",loc,"the number of rows given is not that of the rows passed on")
