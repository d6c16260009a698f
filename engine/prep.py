"""Builds the resolved program (LLVM IR as JSON) from /repo's working tree.

Everything is generated into a private directory; nothing is written in /repo.
Units: libmsi (C + bison + mkenums), msibuild, msiinfo (C), msiextract, wixl,
wixl-heat (valac -> C).
"""
import os, sys, subprocess, hashlib, json, shutil, tempfile, glob, re
from concurrent.futures import ThreadPoolExecutor
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("VP_REPO","/repo")
CACHE=os.path.join(VERIF,".cache")
class PrepError(Exception): pass
def sh(cmd,cwd=None,env=None):
    r=subprocess.run(cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace")
    if r.returncode: raise PrepError("command failed (%d): %s\n%s"%(r.returncode," ".join(cmd),r.stdout[-4000:]))
    return r.stdout
def env():
    e=dict(os.environ); e["LC_ALL"]="C.UTF-8"; e.setdefault("HOME","/root")
    e["PATH"]="/opt/msitools-env/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    return e
def filehash(paths,extra=""):
    h=hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()+b"\0")
        with open(p,"rb") as f: h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]
def tool():
    src=os.path.join(VERIF,"engine","irdump.cpp")
    h=filehash([src])
    out=os.path.join(CACHE,"irdump-"+h)
    if os.path.exists(out): return out
    os.makedirs(CACHE,exist_ok=True)
    tmp=out+".tmp%d"%os.getpid()
    sh(["clang++","-w","-O1","-std=c++17","-fno-rtti","-I/usr/lib/llvm-18/include",src,"-o",tmp,"-L/usr/lib/llvm-18/lib","-lLLVM-18"])
    os.replace(tmp,out)
    return out
_pk=None
def pkg():
    global _pk
    if _pk is None:
        _pk=sh(["pkg-config","--cflags","glib-2.0","gio-2.0","gio-unix-2.0","gobject-2.0","libgsf-1","libxml-2.0","libgcab-1.0"],env=env()).split()
    return _pk
UNITS=["libmsi","msibuild","msiinfo","msiextract","wixl","wixlheat"]
def repo_inputs():
    r=[]
    for pat in ("libmsi/*","include/*","tools/*","tools/wixl/*","*.vapi"):
        r+= [p for p in glob.glob(os.path.join(REPO,pat)) if os.path.isfile(p)]
    return r
CONFIG_H='''#pragma once
#define DATADIR "/usr/local/share"
#define GETTEXT_PACKAGE "msitools"
#define LOCALEDIR "/usr/local/share/locale"
#define PACKAGE_BUGREPORT "https://gitlab.gnome.org/GNOME/msitools/issues"
#define PACKAGE_NAME "msitools"
#define PACKAGE_STRING "msitools UNKNOWN"
#define PACKAGE_VERSION "UNKNOWN"
'''
def gen_common(d):
    with open(os.path.join(d,"config.h"),"w") as f: f.write(CONFIG_H)
    inc=os.path.join(d,"include"); os.makedirs(inc,exist_ok=True)
    types=os.path.join(REPO,"include","libmsi-types.h")
    out=sh(["glib-mkenums","--template",os.path.join(REPO,"include","libmsi-enums.h.etemplate"),types],env=env(),cwd=os.path.join(REPO,"include"))
    with open(os.path.join(inc,"libmsi-enums.h"),"w") as f: f.write(out)
CF=["-std=gnu11","-O0","-g","-Xclang","-disable-O0-optnone","-emit-llvm","-c","-w","-D_FILE_OFFSET_BITS=64","-DG_DISABLE_CAST_CHECKS","-fno-discard-value-names"]
def cc(srcs,d,incs):
    bcs=[]
    def one(s):
        o=os.path.join(d,hashlib.md5(s.encode()).hexdigest()[:8]+"-"+os.path.basename(s)+".bc")
        sh(["clang"]+CF+["-I"+i for i in incs]+pkg()+["-include",os.path.join(d,"config.h"),"-o",o,s],env=env())
        return o
    with ThreadPoolExecutor(8) as ex: return list(ex.map(one,srcs))
def plain_switches(d):
    """valac compares strings in a switch by way of quarks; the comparison itself is put in their place"""
    for f in glob.glob(d+"/*.c"):
        with open(f) as h: t=h.read()
        if "g_quark_from_static_string (" not in t: continue
        var={}
        def note(m): var[m.group(1)]=m.group(2); return m.group(0)
        out=[]
        for l in t.split("\n"):
            if l.startswith("}"): var={}
            re.sub(r"(\w+) = \(NULL == (\w+)\) \? 0 : g_quark_from_string \(\2\);",note,l)
            out.append(re.sub(r'(\w+) == \(\(0 != (\w+)\) \? \2 : \(\2 = g_quark_from_static_string \(("(?:[^"\\]|\\.)*")\)\)\)',lambda m:"0 == g_strcmp0 (%s, %s)"%(var[m.group(1)],m.group(3)) if m.group(1) in var else m.group(0),l))
        with open(f,"w") as h: h.write("\n".join(out))
def meson_vala(section):
    """vala sources of an executable, from the repository's own build description"""
    t=open(os.path.join(REPO,"tools/wixl/meson.build")).read()
    m=re.search(section+r"\s*=\s*\w+\((.*?)\n\)",t,re.S)
    return [os.path.join(REPO,"tools/wixl",x) for x in re.findall(r"'([\w.-]+\.vala)'",m.group(1))]
def build_unit(unit,d):
    gen_common(d)
    incs=[d,os.path.join(d,"include"),REPO,os.path.join(REPO,"include"),os.path.join(REPO,"libmsi"),os.path.join(REPO,"tools")]
    if unit=="libmsi":
        sh(["bison",os.path.join(REPO,"libmsi/sql-parser.y"),"-y","-Wno-yacc","--defines","-o",os.path.join(d,"sql-parser.c")],env=env())
        out=sh(["glib-mkenums","--template",os.path.join(REPO,"libmsi","libmsi-enums.c.etemplate"),os.path.join(REPO,"include","libmsi-types.h")],env=env(),cwd=os.path.join(REPO,"libmsi"))
        with open(os.path.join(d,"libmsi-enums.c"),"w") as f: f.write(out)
        return cc(sorted(glob.glob(os.path.join(REPO,"libmsi","*.c")))+[os.path.join(d,"sql-parser.c"),os.path.join(d,"libmsi-enums.c")],d,incs)
    if unit in("msibuild","msiinfo"):
        s=[os.path.join(REPO,"tools",unit+".c")]
        if unit=="msibuild": s.append(os.path.join(REPO,"tools","sqldelim.c"))
        return cc(s,d,incs)
    vd=os.path.join(VERIF,"engine","vapi")
    cd=os.path.join(d,"c"); os.makedirs(cd,exist_ok=True)
    dbg=["--debug"]
    if unit=="msiextract":
        sh(["valac","-C"]+dbg+["--pkg","libgcab-1.0","--pkg","libgsf-1","--pkg","gobject-2.0","--pkg","gio-2.0","--pkg","glib-2.0","--target-glib","2.12","--directory",cd,"--basedir",os.path.join(REPO,"tools"),"--enable-experimental","--pkg","gio-unix-2.0","--pkg","posix","--pkg","config","--pkg","libmsi-1.0","--vapidir="+REPO,"--vapidir="+vd,os.path.join(REPO,"tools/msiextract.vala")],env=env())
        plain_switches(cd); return cc(glob.glob(cd+"/*.c"),d,incs)
    wd=os.path.join(REPO,"tools/wixl")
    # util.vala library
    ud=os.path.join(d,"u"); os.makedirs(ud,exist_ok=True)
    util=meson_vala("libcommon")
    sh(["valac","-C"]+dbg+["--pkg","glib-2.0","--target-glib","2.12","--directory",ud,"--basedir",wd,"--library","common","--header",os.path.join(ud,"libcommon.h"),"--vapi",os.path.join(ud,"common.vapi"),"--enable-experimental","--pkg","gio-2.0","--pkg","posix","--vapidir="+wd]+util,env=env())
    sect="wixl" if unit=="wixl" else "wixl_heat"
    srcs=meson_vala(sect)
    if not srcs: raise PrepError("no vala sources for "+unit)
    args=["valac","-C"]+dbg+["--pkg","libxml-2.0","--pkg","libgcab-1.0","--pkg","libgsf-1","--pkg","gobject-2.0","--pkg","gio-2.0","--pkg","glib-2.0","--target-glib","2.12","--directory",cd,"--basedir",wd,"--enable-experimental","--pkg","config","--pkg","posix","--pkg","libmsi-1.0","--vapidir="+REPO,"--vapidir="+vd]
    if unit=="wixl": args+=["-H",os.path.join(cd,"wixl.h"),"--use-header"]
    sh(args+srcs+[os.path.join(ud,"common.vapi")],env=env())
    plain_switches(cd); plain_switches(ud)
    return cc(glob.glob(cd+"/*.c")+glob.glob(ud+"/*.c"),d,incs+[cd,ud])
def ir(unit,inline=True):
    """returns the JSON program of one unit, (re)built if /repo changed"""
    base=os.path.join(VERIF,"engine","baseline",unit+".txt")
    deps=repo_inputs()+[os.path.join(VERIF,"engine","prep.py"),os.path.join(VERIF,"engine","irdump.cpp")]+glob.glob(os.path.join(VERIF,"engine","vapi","*"))
    if os.path.exists(base): deps.append(base)
    key=filehash(deps,unit+str(inline)+REPO)
    os.makedirs(CACHE,exist_ok=True)
    out=os.path.join(CACHE,"%s-%s.json"%(unit,key))
    if not os.path.exists(out):
        for old in glob.glob(os.path.join(CACHE,unit+"-*.json")):
            try:
                import time
                if time.time()-os.path.getmtime(old)>3600*3: os.unlink(old)
            except OSError: pass
        t=tool()
        d=tempfile.mkdtemp(prefix="vp-ir-",dir=CACHE)
        try:
            bcs=build_unit(unit,d)
            tmp=os.path.join(d,"out.json")
            cmd=[t,"-o",tmp]
            if os.path.exists(base) and inline: cmd+=["--baseline",base]
            else: cmd+=["--no-inline"]
            sh(cmd+bcs)
            os.replace(tmp,out)
        finally:
            shutil.rmtree(d,ignore_errors=True)
    with open(out) as f: return json.load(f)
if __name__=="__main__":
    import time
    if sys.argv[1:]==["setup"]:
        tool()
        with ThreadPoolExecutor(3) as ex: list(ex.map(lambda u: ir(u) and None,UNITS))
        print("setup ok")
    else:
        for u in sys.argv[1:] or UNITS:
            t=time.time(); j=ir(u); print(u,len(j["fns"]),"functions",sum(1 for f in j["fns"].values() if not f["decl"]),"defined; %.1fs"%(time.time()-t), "inlined",len(j["inlined"]))
