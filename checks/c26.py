"""Which column each attribute value ends in: conditional constant propagation with a marker as the assumed value of one
attribute (everything else unknown), through conversions and helpers, to the argument of the table row."""
from util import *
from sccp import *
MINIMUM={"attributes":120}
# visitor, table method, state, given, {parameter: attribute}; attribute "X" of the element itself, "self.Id", "parent.Id",
# "parent.parent.Id", "kind.Attr" of another kind of element; "#X" a number written as text
SPEC=[
("binary","binary_add",{},{"id":"self.Id"}),
("icon","icon_add",{},{"id":"self.Id"}),
("component","component_add",{},{"Component":"self.Id"}),
("condition","launch_condition_add",{},{"description":"Message"}),
("control","control_add",{},{"dialog":"parent.Id","control":"self.Id","type":"Type","x":"#X","y":"#Y","width":"#Width","height":"#Height","property":"Property","text":"Text"}),
("control","control_condition_add",{"DefaultCondition":0,"DisableCondition":0,"EnableCondition":0,"HideCondition":0,"ShowCondition":0},{}),
("control","check_box_add",{"Type":"CheckBox"},{"property":"Property","value":"CheckBoxValue"}),
("custom_action","custom_action_add",{"DllEntry":1},{"Action":"self.Id","Source":"BinaryKey","Target":"DllEntry"}),
("custom_action","custom_action_add",{"DllEntry":0,"JScriptCall":1},{"Source":"BinaryKey","Target":"JScriptCall"}),
("custom_action","custom_action_add",{"DllEntry":0,"JScriptCall":0,"FileKey":0,"ExeCommand":1},{"Source":"Property","Target":"ExeCommand"}),
("custom_action","custom_action_add",{"DllEntry":0,"JScriptCall":0,"FileKey":1,"ExeCommand":1},{"Source":"FileKey","Target":"ExeCommand"}),
("custom_action","custom_action_add",{"DllEntry":0,"JScriptCall":0,"ExeCommand":0,"Property":1,"Value":1},{"Source":"Property","Target":"Value"}),
("dialog","dialog_add",{},{"dialog":"self.Id","width":"#Width","height":"#Height","title":"Title"}),
("directory","directory_add",{},{"Directory":"self.Id","DefaultDir":"Name"}),
("feature","feature_add",{},{"Feature":"self.Id","Level":"#Level","Title":"Title","Description":"Description","ConfigurableDirectory":"ConfigurableDirectory"}),
("file","file_add",{},{"File":"self.Id","Component":"parent.Id","Version":"CompanionFile"}),
("file","file_add",{"CompanionFile":0},{"Version":"DefaultVersion"}),
("ini_file","ini_file_add",{"Action":"addLine"},{"IniFile":"self.Id","FileName":"Name","DirProperty":"Directory","Section":"Section","Key":"Key","Value":"Value","Component":"parent.Id"}),
("ini_file","remove_ini_file_add",{"Action":"removeLine"},{"IniFile":"self.Id","FileName":"Name","DirProperty":"Directory","Section":"Section","Key":"Key","Value":"Value","Component":"parent.Id"}),
("media","media_add",{},{"DiskId":"self.Id","DiskPrompt":"DiskPrompt"}),
("media","media_add",{"EmbedCab":"no"},{"Cabinet":"Cabinet"}),
("progress_text","action_text_add",{},{"Action":"Action","Template":"Template"}),
("property","property_add",{"Value":1},{"prop":"self.Id","value":"Value"}),
("radio_button","radio_button_add",{},{"property":"radio_button_group.Property","value":"Value","x":"#X","y":"#Y","width":"#Width","height":"#Height","text":"Text","help":"Help"}),
("registry_search","app_search_add",{"Root":"HKLM","Type":"raw"},{"Property":"parent.Id","Signature":"self.Id"}),
("registry_search","reg_locator_add",{"Root":"HKLM","Type":"raw"},{"Signature":"self.Id","Key":"Key","Name":"Name"}),
("registry_value","registry_add",{"Root":"HKLM","Type":"string"},{"Registry":"self.Id","Name":"Name"}),
("remove_folder","remove_file_add",{"On":"both"},{"FileKey":"self.Id","Component":"parent.Id"}),
("create_folder","create_folder_add",{},{"Component":"parent.Id"}),
("service_control","service_control_add",{"Start":0,"Stop":0,"Remove":0},{"ServiceControl":"self.Id","Name":"Name","Component":"parent.Id"}),
("service_install","service_install_add",{"Start":"auto","Type":"ownProcess","ErrorControl":"normal","EraseDescription":"no"},
 {"ServiceInstall":"self.Id","Name":"Name","DisplayName":"DisplayName","LoadOrderGroup":"LoadOrderGroup","StartName":"Account","Password":"Password","Arguments":"Arguments","Component":"parent.Id","Description":"Description"}),
("shortcut","shortcut_add",{},{"Shortcut":"self.Id","Directory":"Directory","Name":"Name"}),
("shortcut","shortcut_set_icon",{},{"Icon":"Icon"}),
("shortcut","shortcut_set_icon_index",{},{"IconIndex":"#IconIndex"}),
("shortcut","shortcut_set_working_dir",{},{"WkDir":"WorkingDirectory"}),
("shortcut","shortcut_set_target",{},{"Target":"Target"}),
("shortcut","shortcut_set_description",{},{"Description":"Description"}),
("shortcut","shortcut_set_arguments",{},{"Arguments":"Arguments"}),
("subscribe","event_mapping_add",{},{"dialog":"parent.parent.Id","control":"parent.Id","event":"Event","attribute":"Attribute"}),
("publish","control_event_add",{"Property":0},{"event":"Event","argument":"Value","condition":"Condition"}),
("publish","control_event_add",{"Property":1,"Value":1},{"argument":"Value","condition":"Condition"}),
("text_style","text_style_add",{},{"textstyle":"self.Id","facename":"FaceName","size":"#Size"}),
("ui_text","ui_text_add",{},{"key":"self.Id","text":"Value"}),
("upgrade_version","upgrade_add",{},{"VersionMin":"Minimum","VersionMax":"Maximum","ActionProperty":"Property"}),
("extension","registry_add",{"prog_id.Advertise":"no"},{}),
("package","info:set_comments",{},{"value":"Comments"}),
("package","info:set_subject",{},{"value":"Description"}),
("package","info:set_keywords",{},{"value":"Keywords"}),
("product","info:set_author",{},{"value":"Manufacturer"}),
("product","info:set_codepage",{},{"value":"#Codepage"}),
("product","info:set_subject",{},{"value":"Name"}),
("prog_id","registry_add",{"Advertise":"no"},{"Key":"self.Id","Component":"parent.Id","Value":"Description"}),
]
# rows told apart by a fixed name: visitor, table method, name parameter, value parameter, {name: attribute}
NAMED=[
("product","property_add","prop","value",{"Manufacturer":"Manufacturer","ProductLanguage":"Language","ProductCode":"dep:Id","ProductName":"Name","ProductVersion":"Version","UpgradeCode":"dep:UpgradeCode"}),
("control","control_condition_add","action","condition",{"Default":"DefaultCondition","Disable":"DisableCondition","Enable":"EnableCondition","Hide":"HideCondition","Show":"ShowCondition"}),
]
# further summary-information values set from the Package and Product elements
MARK="\x01marker"
FN={"prog_id":"progid"}
def objdesc(X,P,F,o,depth=0):
    """self / parent / parent.parent for the object an attribute is read from"""
    os=origin(P,F,o); out=set()
    for x in os:
        if x[0]=="a": out.add("self" if x[1]==1 else "?")
        elif x[0]=="n" or x==("c",0): continue
        elif x[0]=="i":
            I=F.insts[x[1]]
            if I.op=="call" and P.callname(F,I).startswith(("_g_object_ref0","g_object_ref","g_type_check_instance_cast")) and I.a and depth<12: out|=objdesc(X,P,F,I.a[0],depth+1)
            elif I.op=="load":
                k=P.fieldkey(F,I.a[0])
                if k and k[1]=="parent" and depth<12:
                    G=F.insts[I.a[0][1]] if I.a[0][0]=="i" else None
                    out|={d+".parent" for d in objdesc(X,P,F,G.a[0],depth+1)} if G is not None else {"?"}
                else: out.add("?")
            else: out.add("?")
    return out or {"?"}
def assume(elem,attr,env,mark,seen):
    pre="wixl_wix_%s_get_"%elem
    def f(P,F,I,n,a):
        if n.startswith(pre):
            k=n[len(pre):]
            if k==attr: seen.add(n); return ("s",mark)
            if k in env: return val(env[k])
        if n=="wixl_wix_element_get_Id" and attr.endswith(".Id"):
            d=objdesc(None,P,F,I.a[0])
            if d=={attr[:-3].replace("parent","self.parent",1) if attr.startswith("parent") else attr[:-3]}: seen.add(n); return ("s",mark)
        m="wixl_wix_"+attr.replace(".","_get_",1)
        if "." in attr and n==m: seen.add(n); return ("s",mark)
        for k,v in env.items():
            if "." in k and n=="wixl_wix_"+k.replace(".","_get_",1): return val(v)
        return None
    return f
def val(v): return ("null",) if v==0 else ("nn",) if v==1 else ("s",v)
def run(ctx):
    P=ctx.prog("wixl")
    def prepare(vis,meth):
        F=ctx.need(P.fn("wixl_wix_builder_real_visit_"+FN.get(vis,vis)),"the handler of %s was not found"%vis); S=ctx.need(P.fn("wixl_msi_summary_info_"+meth[5:] if meth.startswith("info:") else "wixl_msi_table_"+meth),"table method %s was not found"%meth)
        ctx.fns([F.src]); return F,S
    def states(F,vis):
        if len(F.params)!=4: return [[("nn",)]*2+[("nn",)]]
        return [[("nn",)]*2+[K(P.enum("WIXL_VISIT_STATE_ENTER" if vis=="feature" else "WIXL_VISIT_STATE_LEAVE"))]+[("nn",)]]
    for vis,meth,env,cols in SPEC:
        F,S=prepare(vis,meth)
        for param,attr in cols.items():
            ctx.need(param in S.pn,"no parameter %s of %s"%(param,meth)); pi=S.pn.index(param)
            num=attr.startswith("#"); a=attr.lstrip("#"); mark="4711" if num else MARK
            want=K(4711) if num else ("s",MARK); seen=set()
            _,sites,_=Sccp(P,assume(vis,a,{k:v for k,v in env.items() if k!=a},mark,seen)).run(F,states(F,vis)[0])
            got=[(F.insts[i],v[pi]) for i,(n,v) in sites.items() if n==S.src and pi<len(v)]
            ctx.count("attributes"); key="%s:%s:%s:%s"%(vis,meth,param,a)
            if not got: ctx.find(key,P.loc(F.blocks[0].insts[0]),"%s is given but no %s row is written"%(a,meth)); continue
            ctx.ok("%s: %s of %s into %s"%(P.loc(got[0][0]),a,vis,param))
            if not any(v==want for _,v in got):
                ctx.find(key,P.loc(got[0][0]),"the attribute %s of %s is not what is stored as %s by %s"%(a,vis,param,meth))
            # and it does not end in another column of the row as well
            for i,(n,v) in sites.items():
                if n==S.src:
                    for q,x in enumerate(v):
                        if q<len(S.pn) and x==want and q!=pi and S.pn[q] not in("self",) and cols.get(S.pn[q],"").lstrip("#")!=a:
                            ctx.find(key+":"+S.pn[q],P.loc(F.insts[i]),"the attribute %s of %s is stored as %s by %s"%(a,vis,S.pn[q],meth))
    for vis,meth,np,vp,names in NAMED:
        F,S=prepare(vis,meth); ni=S.pn.index(np); vi=S.pn.index(vp)
        for name,attr in names.items():
            dep=attr.startswith("dep:"); a=attr.replace("dep:",""); seen=set(); a2="self.Id" if a=="Id" else a
            _,sites,_=Sccp(P,assume(vis,a2,{},MARK,seen)).run(F,states(F,vis)[0])
            rows=[(F.insts[i],v) for i,(n,v) in sites.items() if n==S.src and v[ni]==("s",name)]
            ctx.count("attributes"); key="%s:%s:%s"%(vis,meth,name)
            if not rows: ctx.find(key,P.loc(F.blocks[0].insts[0]),"%s is given but no row %s is written"%(a,name)); continue
            ctx.ok("%s: %s of %s as %s"%(P.loc(rows[0][0]),a,vis,name))
            if dep: good=any(depends(P,F,I.a[vi],a) for I,_ in rows)
            else: good=any(v[vi]==("s",MARK) for _,v in rows)
            if not good: ctx.find(key,P.loc(rows[0][0]),"the row %s does not hold the attribute %s of %s"%(name,a,vis))
    PROPS={"codepage":1,"subject":3,"author":4,"keywords":5,"comments":6}
    for k,v in PROPS.items():
        F=ctx.need(P.fn("wixl_msi_summary_info_set_"+k),"the summary value %s is not set anywhere"%k); ctx.ok(F.src); ctx.count("attributes")
        sites=Sccp(P,lambda *a:None).run(F,[("nn",),("s",MARK) if k!="codepage" else K(4711),("nn",)])[1]
        ids={const(a[1]) for n,a in sites.values() if n=="wixl_msi_summary_info_set_property"}
        vals=[a[1] for n,a in sites.values() if n in("g_value_set_string","g_value_set_int","g_value_take_string")]
        if ids!={v}: ctx.find("summary:%s:id"%k,P.loc(F.blocks[0].insts[0]),"the %s of the package is stored as summary property %s instead of %d"%(k,sorted(map(str,ids)),v))
        if not any(x in(("s",MARK),K(4711)) for x in vals): ctx.find("summary:%s:value"%k,P.loc(F.blocks[0].insts[0]),"the %s of the package is not what is stored"%k)
    F=ctx.need(P.fn("wixl_wix_builder_real_visit_package"),"the handler of package was not found")
    sites=Sccp(P,assume("package","InstallerVersion",{},"4711",set())).run(F,[("nn",)]*3)[1]; ctx.count("attributes")
    if not any(n=="g_value_set_int" and a[1]==K(4711) for n,a in sites.values()) or not any(n=="wixl_msi_summary_info_set_property" and const(a[1])==14 for n,a in sites.values()):
        ctx.find("package:InstallerVersion",P.loc(F.blocks[0].insts[0]),"the installer version is not stored as summary property 14")
    ctx.rule("With a marker as the value of one attribute and all others unknown, the marker reaches the parameter for its documented column of the row's table method, and no other parameter.")
def depends(P,F,o,attr):
    seen=set(); st=[o]
    while st:
        x=st.pop()
        if x in seen or x[0]!="i": continue
        seen.add(x); I=F.insts[x[1]]
        if I.op=="call" and P.callname(F,I).endswith("_get_"+attr): return True
        st+=list(operands(I))
    return False
