"""Which flag bits and codes wixl stores for the documented attribute values, decided by conditional propagation of
known bits under one assumed attribute value, every other attribute being unknown."""
from util import *
from sccp import *
MINIMUM={"values":150}
A=None; ANY=object()
def YN(attr,bit,absent=False,inv=False,**given):
    """a yes/no attribute that sets (inv: clears) the bit"""
    on,off=(0,bit) if inv else (bit,0)
    return (attr,bit,{"yes":on,"no":off,A:on if absent else off},given)
def ST(attr,mask,vals,**given): return (attr,mask,vals,given)
CT=dict(Type="PushButton")
LOW=0xffffffff
SPEC=[
# visitor, element, sink, parameter, [attributes]
("dialog","dialog","dialog_add","attributes",[
  YN("Hidden",1,inv=True),YN("Modeless",2,inv=True),YN("NoMinimize",4,inv=True),YN("KeepModeless",16),YN("TrackDiskSpace",32),YN("CustomPalette",64),
  YN("RightToLeft",128),YN("RightAligned",256),YN("LeftScroll",512),YN("ErrorDialog",65536)]),
("control","control","control_add","attributes",[
  YN("Hidden",1,inv=True,**CT),YN("Disabled",2,inv=True,**CT),YN("Sunken",4,**CT),YN("Indirect",8,**CT),YN("Icon",0x80000,**CT),
  YN("NoPrefix",0x20000,Fixed=A,**CT),YN("Fixed",0x20000,NoPrefix=A,**CT),YN("Transparent",0x10000,ProgressBlocks=A,**CT),YN("ProgressBlocks",0x10000,Transparent=A,**CT),
  ST("IconSize",0x600000,{"16":0x200000,"32":0x400000,"48":0x600000,A:0},ShowRollbackCost=A,**CT),YN("FixedSize",0x100000,**CT),YN("ElevationShield",0x800000,**CT),
  YN("ShowRollbackCost",0x400000,IconSize=A,**CT)]),
("text_style","text_style","text_style_add","stylebits",[YN("Bold",1),YN("Italic",2),YN("Underline",4),YN("Strike",8)]),
("component","component","component_add","Attributes",[
  YN("Permanent",16),ST("Win64",256,{"yes":256,"no":0}),
  ST("Win64",256,{A:256},arch="x64"),ST("Win64",256,{A:256},arch="ia64"),ST("Win64",256,{A:0},arch="x86")]),
("feature","feature","feature_add","Attributes",[
  ST("InstallDefault",3,{"followParent":2,"source":1,"local":0,A:0}),ST("AllowAdvertise",40,{"no":8,"system":32,"yes":0,A:0},TypicalDefault=A),
  ST("TypicalDefault",4,{"advertise":4,"install":0,A:0},AllowAdvertise=A),ST("Absent",16,{"disallow":16,"allow":0,A:0})]),
("upgrade_version","upgrade_version","upgrade_add","Attributes",[
  YN("MigrateFeatures",1),YN("OnlyDetect",2),YN("IncludeMinimum",256,absent=True),YN("IncludeMaximum",512)]),
("service_install","service_install","service_install_add","ServiceType",[
  YN("Interactive",256,Type="ownProcess"),ST("Type",0xff,{"ownProcess":16,"shareProcess":32})]),
("service_install","service_install","service_install_add","StartType",[ST("Start",LOW,{"auto":2,"demand":3,"disabled":4})]),
("service_install","service_install","service_install_add","ErrorControl",[ST("ErrorControl",LOW,{"ignore":0,"normal":1,"critical":3})]),
("service_control","service_control","service_control_add","Event",[
  ST("Start",0x11,{"install":1,"uninstall":16,"both":17,A:0}),ST("Stop",0x22,{"install":2,"uninstall":32,"both":34,A:0}),
  ST("Remove",0x88,{"install":8,"uninstall":128,"both":136,A:0})]),
("remove_folder","remove_folder","remove_file_add","InstallMode",[ST("On",LOW,{"install":1,"uninstall":2,"both":3})]),
("registry_search","registry_search","reg_locator_add","Root",[ST("Root",LOW,{"HKCR":0,"HKCU":1,"HKLM":2,"HKU":3})]),
("registry_search","registry_search","reg_locator_add","Type",[
  ST("Type",15,{"directory":0,"file":1,"raw":2},Win64="no"),ST("Type",16,{"directory":0,"file":0,"raw":0},Win64="no"),
  ST("Win64",16,{"yes":16,"no":0},Type="raw"),ST("Win64",16,{A:16},Type="raw",arch="x64"),ST("Win64",16,{A:0},Type="raw",arch="x86")]),
("registry_value","registry_value","registry_add","Root",[ST("Root",LOW,{"HKCR":0,"HKCU":1,"HKLM":2,"HKU":3,"HKMU":LOW},Type="string")]),
("ini_file","ini_file","ini_file_add","Action",[ST("Action",LOW,{"addLine":0,"createLine":1,"addTag":3})]),
("ini_file","ini_file","remove_ini_file_add","Action",[ST("Action",LOW,{"removeLine":2,"removeTag":4})]),
("custom_action","custom_action","custom_action_add","Type",[
  ST("DllEntry",0x3f,{ANY:1}),ST("JScriptCall",0x3f,{ANY:5},DllEntry=A),
  ST("ExeCommand",0x3f,{ANY:50},DllEntry=A,JScriptCall=A,FileKey=A),ST("ExeCommand",0x3f,{ANY:18},DllEntry=A,JScriptCall=A,FileKey=ANY),
  ST("Value",0x3f,{ANY:51},DllEntry=A,JScriptCall=A,ExeCommand=A,Property=ANY),
  ST("Execute",0x700,{"firstSequence":0x100,"oncePerProcess":0x200,"secondSequence":0x300,"deferred":0x400,"rollback":0x500,"commit":0x600,A:0,"immediate":0}),
  ST("Return",0xc0,{"ignore":64,"asyncWait":128,"asyncNoWait":192,"check":0,A:0}),
  ST("Impersonate",0x800,{"yes":0,"no":0x800},Execute="deferred"),ST("Impersonate",0x800,{"yes":0,"no":0},Execute=A)]),
("registry_value","registry_value","registry_add",None,[]),
]
BOUNDS={"WIX_UPGRADE_DETECTED":("","\1version"),"WIX_DOWNGRADE_DETECTED":("\1version",""),"WIX_SAME_VERSION_UPGRADE_DETECTED":("\1version","\1version")}
ARCH={"x86":0,"ia64":1,"x64":2}
def aval(v):
    return ("null",) if v is A else ("nn",) if v is ANY else ("s",v)
def assumption(elem,env,read):
    pre="wixl_wix_%s_get_"%elem
    arch=env.get("arch")
    def f(P,F,I,n,a):
        if n.startswith(pre):
            k=n[len(pre):]; read.add(k)
            if k in env and k!="arch": return aval(env[k])
        if arch is not None and (n=="field:arch" or n=="field:_arch" or n.endswith("_builder_get_arch")): return K(ARCH[arch])
        return None
    return f
def run(ctx):
    P=ctx.prog("wixl")
    t=nicks(P,"wixl_arch_get_type")
    ctx.need(t and all(t.get(k)==v for k,v in ARCH.items()),"the processor architectures are not those the rule knows")
    getters={F.src for F in P.fns.values()}
    for vis,elem,sink,param,attrs in SPEC:
        if not attrs: continue
        F=ctx.need(P.fn("wixl_wix_builder_real_visit_"+vis),"the handler of %s was not found"%vis); S=ctx.need(P.fn("wixl_msi_table_"+sink),"table method %s was not found"%sink)
        ctx.need(param in S.pn,"no parameter %s of %s"%(param,sink)); pi=S.pn.index(param); ctx.fns([F.src])
        for attr,mask,vals,given in attrs:
            ctx.need("wixl_wix_%s_get_%s"%(elem,attr) in getters,"no attribute %s of %s"%(attr,elem))
            for v,bits in vals.items():
                env=dict(given); env[attr]=v; read=set()
                R=Sccp(P,assumption(elem,env,read))
                _,sites,_=R.run(F,[("nn",)]*2+[K(P_LEAVE(P,F,vis))]*(F.ret!="" and len(F.params)==4)+[("nn",)])
                got=BOT; where=None
                for i,(n,a) in sites.items():
                    if n==S.src:
                        where=F.insts[i]; got=join(got,a[pi]) if pi<len(a) else TOP
                ctx.count("values"); desc="%s %s=%s"%(elem,attr,"(absent)" if v is A else "(given)" if v is ANY else "'%s'"%v)
                key="%s:%s:%s"%(elem,attr,"-" if v is A else "+" if v is ANY else v)
                if "arch" in given: key+=":"+given["arch"]; desc+=" for "+given["arch"]
                if where is None: ctx.find(key,P.loc(F.blocks[0].insts[0]),"%s never reaches the %s row: the documented value is rejected or lost"%(desc,sink[:-4])); continue
                if got[0]!="k" or got[1]&LOW==LOW and got[2]==0 and mask!=LOW: ctx.count("undecided"); continue
                ctx.ok("%s: %s"%(P.loc(where),desc))
                m=mask
                if got[2]&m!=bits or got[1]&m!=bits:
                    if got[2]&m==bits&m and False: continue
                    ctx.find(key,P.loc(where),"%s must store %s=0x%x (of 0x%x) but stores bits 0x%x..0x%x"%(desc,param,bits,mask,got[2]&m,got[1]&m))
    # the scope of the installation: summary source bits and the ALLUSERS property
    F=ctx.need(P.fn("wixl_wix_builder_real_visit_package"),"the handler of package was not found")
    for v,bits,all_ in(("perUser",10,False),("perMachine",2,True),(A,2,False)):
        _,sites,_=Sccp(P,assumption("package",{"InstallScope":v},set())).run(F,[("nn",)]*3); ctx.count("values"); ctx.ok("package InstallScope=%s"%v)
        ints=[a[1] for n,a in sites.values() if n=="g_value_set_int"]; rows=[a for n,a in sites.values() if n=="wixl_msi_table_property_add" and a[1]==("s","ALLUSERS")]
        w=P.loc(F.blocks[0].insts[0])
        if not any(const(x)==bits for x in ints) and not any(x==TOP or x==UNK for x in ints[1:]): ctx.find("package:InstallScope:%s"%v,w,"InstallScope=%s must store the source flags %d"%(v or "(absent)",bits))
        if bool(rows)!=all_: ctx.find("package:InstallScope:%s:ALLUSERS"%v,w,"InstallScope=%s must %swrite the property ALLUSERS"%(v or "(absent)","" if all_ else "not "))
        if all_ and rows and not any(a[2]==("s","1") for a in rows): ctx.find("package:InstallScope:value",w,"ALLUSERS must be 1")
    # rows of MajorUpgrade, told apart by their property
    F=ctx.need(P.fn("wixl_wix_builder_real_visit_major_upgrade"),"the handler of major_upgrade was not found")
    S=P.fn("wixl_msi_table_upgrade_add"); pi=S.pn.index("Attributes"); ai=S.pn.index("ActionProperty")
    for env,want in(({"AllowDowngrades":"yes","AllowSameVersionUpgrades":"no"},{"WIX_UPGRADE_DETECTED":1}),({"AllowDowngrades":"no","AllowSameVersionUpgrades":"yes"},{"WIX_UPGRADE_DETECTED":1,"WIX_DOWNGRADE_DETECTED":2,"WIX_SAME_VERSION_UPGRADE_DETECTED":0x301}),({"AllowDowngrades":A,"AllowSameVersionUpgrades":A},{"WIX_UPGRADE_DETECTED":1,"WIX_DOWNGRADE_DETECTED":2})):
        base=assumption("major_upgrade",env,set())
        _,sites,_=Sccp(P,lambda P,F,I,n,a: ("s","\1version") if n=="wixl_wix_product_get_Version" else base(P,F,I,n,a)).run(F,[("nn",)]*3); ctx.count("values"); ctx.ok("major_upgrade %s"%env)
        rows={a[ai][1]:const(a[pi]) for n,a in sites.values() if n==S.src and a[ai][0]=="s"}
        if any(n==S.src and a[ai][0]!="s" for n,a in sites.values()): ctx.count("undecided"); continue
        for k,v in want.items():
            if rows.get(k)!=v: ctx.find("major_upgrade:%s:%s"%(k,sorted(env.items(),key=str)),P.loc(F.blocks[0].insts[0]),"MajorUpgrade with %s must write the %s row with attributes 0x%x, but %s"%(env,k,v,"no row is written" if k not in rows else "stores %s"%rows[k]))
        for n,a in sites.values():
            if n==S.src and a[ai][0]=="s" and a[ai][1] in BOUNDS:
                lo,hi=BOUNDS[a[ai][1]]
                if (a[S.pn.index("VersionMin")],a[S.pn.index("VersionMax")])!=(("s",lo),("s",hi)): ctx.find("major_upgrade:%s:bounds"%a[ai][1],P.loc(F.blocks[0].insts[0]),"the version range of the %s row is not the documented one"%a[ai][1])
        for k in set(rows)-set(want)-{"WIX_DOWNGRADE_DETECTED"}: ctx.find("major_upgrade:extra:%s"%k,P.loc(F.blocks[0].insts[0]),"MajorUpgrade with %s writes a row %s"%(env,k))
    ctx.rule("For each documented attribute value, with that value assumed and all unrelated attributes unknown, the argument stored in the table row has exactly the documented bits.")
def P_LEAVE(P,F,vis):
    """the state in which the handler of an element with children adds its row"""
    return P.enum("WIXL_VISIT_STATE_ENTER" if vis=="feature" else "WIXL_VISIT_STATE_LEAVE")
