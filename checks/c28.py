"""Format strings: every call of a formatting function, in the library and all tools, has a format fixed in the program
whose conversions agree in number and kind with the arguments passed."""
from util import *
import re, prep
MINIMUM={"obligations":250,"units":6}
FMT={"printf":0,"fprintf":1,"dprintf":1,"sprintf":1,"snprintf":2,"__sprintf_chk":3,"__snprintf_chk":4,"__printf_chk":1,"__fprintf_chk":2,"asprintf":1,
 "g_print":0,"g_printerr":0,"g_strdup_printf":0,"g_snprintf":2,"g_sprintf":1,"g_printf":0,"g_fprintf":1,"g_string_printf":1,"g_string_append_printf":1,
 "g_set_error":3,"g_error_new":2,"g_set_prefixed_error":1,"g_prefix_error":1,"g_propagate_prefixed_error":2,"g_log":2,"g_markup_printf_escaped":0,
 "gsf_output_printf":1,"g_output_stream_printf":4,"g_test_message":0,"g_log_structured_standard":5,"g_return_if_fail_warning":None,
 "vprintf":0,"vfprintf":1,"vsprintf":1,"vsnprintf":2,"g_strdup_vprintf":0,"g_vsnprintf":2,"g_error_new_valist":2,"g_logv":2,"g_string_vprintf":1,"g_string_append_vprintf":1,"xmlTextWriterWriteFormatString":1,"syslog":1}
CONV=re.compile(r"%(?P<flags>[-+ #0'I]*)(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d*))?(?P<len>hh|h|ll|l|q|j|z|t|L)?(?P<c>[diouxXeEfFgGaAcspnm%C S])")
def needs(fmt):
    out=[]; i=0
    while i<len(fmt):
        if fmt[i]!="%": i+=1; continue
        m=CONV.match(fmt,i)
        if not m: return None
        i=m.end()
        if m["c"]=="%": continue
        if m["w"]=="*": out.append("i")
        if m["p"]=="*": out.append("i")
        if m["c"]=="m": continue
        if m["c"] in "spnS": out.append("p")
        elif m["c"] in "eEfFgGaA": out.append("d")
        else: out.append("l" if m["len"] in("l","ll","q","j","z","t") else "i")
    return out
OKT={"p":("ptr",),"d":("double","x86_fp80"),"l":("i64",),"i":("i32","i16","i8")}
def wrappers(P):
    """functions of the program that forward a parameter as format: name -> index"""
    w={}; ch=True
    while ch:
        ch=False
        for F in P.fns.values():
            if F.name in w: continue
            for I in P.calls(F):
                n=I.callee[1] if I.callee[0]=="g" else None
                idx=w.get(n) if n in w else FMT.get(n)
                if idx is None or idx>=len(I.a): continue
                o=skipcast(F,I.a[idx])
                if o[0]=="a" and F.vararg or o[0]=="a" and n and "v" in n and "print" in n: w[F.name]=o[1]; ch=True
    return w
def strings(P,F,o):
    res=[]
    for x in origin(P,F,o):
        s=P.cstr(x)
        if s is None and x[0]=="i" and F.insts[x[1]].op=="call" and P.callname(F,F.insts[x[1]]) in("gettext","g_dgettext","g_dpgettext","dcgettext","g_strip_context"):
            C=F.insts[x[1]]; s=P.cstr(C.a[0] if P.callname(F,C)=="gettext" else C.a[1])
        res.append((x,s))
    return res
def run(ctx):
    for u in prep.UNITS:
        P=ctx.prog(u,inline=False) if False else ctx.prog(u); ctx.count("units")
        W=wrappers(P); ctx.fns(P.fns)
        for F in P.fns.values():
            for I in P.calls(F):
                n=I.callee[1] if I.callee[0]=="g" else None
                idx=W.get(n,FMT.get(n))
                if idx is None or idx>=len(I.a): continue
                if skipcast(F,I.a[idx])[0]=="a" and F.name in W: continue
                ctx.ok(P.loc(I))
                isv=n not in W and n.lstrip("_g").startswith("v") or n in("g_logv","g_error_new_valist","g_strdup_vprintf")
                for x,s in strings(P,F,I.a[idx]):
                    if s is None: ctx.find("%s:%s:%s"%(u,F.src,n),P.loc(I),"the format given to %s is not fixed in the program: text from outside would be interpreted as conversions"%n); continue
                    if isv: continue
                    nd=needs(s)
                    if nd is None: ctx.find("%s:%s:%s:conv"%(u,F.src,n),P.loc(I),"the format %r has an unknown conversion"%s); continue
                    args=I.a[idx+1:]
                    if n=="g_error_new" or True:
                        tys=[argty(P,F,I,idx+1+j) for j in range(len(args))]
                    if len(tys)<len(nd) : ctx.find("%s:%s:%s:count"%(u,F.src,n),P.loc(I),"the format %r takes %d arguments but %d are passed"%(s,len(nd),len(tys)))
                    else:
                        for j,(k,t) in enumerate(zip(nd,tys)):
                            if t and t not in OKT[k]: ctx.find("%s:%s:%s:kind"%(u,F.src,n),P.loc(I),"argument %d of the format %r has type %s"%(j+1,s,t))
    ctx.rule("The format argument of every printf-like call (including wrappers found in the program) is a string constant on every path, and the number and machine type of the arguments match its conversions.")
def argty(P,F,I,j):
    o=I.a[j]
    if o[0]=="i": return F.insts[o[1]].ty
    if o[0]=="a": return F.params[o[1]]
    if o[0] in("g","ge","n"): return "ptr"
    return None
