"""Standard actions of the sequence tables: the constant table of actions, the sequences they may appear in, which
of them are added when which tables have rows (conditional constant propagation with the row lists assumed empty or not),
and where name, condition and number of an added action go."""
from util import *
from sccp import *
MINIMUM={"actions":79,"row combinations":12,"stored fields":4}
AE,AU,AD,IE,IU=1,2,4,8,16
T="""InstallInitialize - 1500 AE AD IE;InstallExecute NOT_Installed 6500 IE;InstallExecuteAgain NOT_Installed 6550 IE;InstallFinalize - 6600 AE AD IE;InstallFiles - 4000 AE IE
InstallAdminPackage - 3900 AE;FileCost - 900 AE AU IE IU;CostInitialize - 800 AE AU AD IE IU;CostFinalize - 1000 AE AU AD IE IU;InstallValidate - 1400 AE AD IE;ExecuteAction - 1300 AU IU
CreateShortcuts - 4500 AD IE;MsiPublishAssemblies - 6250 AD IE;PublishComponents - 6200 AD IE;PublishFeatures - 6300 AD IE;PublishProduct - 6400 AD IE;RegisterClassInfo - 4600 AD IE
RegisterExtensionInfo - 4700 AD IE;RegisterMIMEInfo - 4900 AD IE;RegisterProgIdInfo - 4800 AD IE;AllocateRegistrySpace NOT_Installed 1550 IE;AppSearch - 50 IE IU;BindImage - 4300 IE
CCPSearch NOT_Installed 500 IE IU;CreateFolders - 3700 IE;DeleteServices VersionNT 2000 IE;DuplicateFiles - 4210 IE;ExitDialog - -1 AU IU;FatalError - -3 AU IU;FindRelatedProducts - 25 IE IU
InstallODBC - 5400 IE;InstallServices VersionNT 5800 IE;MaintenanceWelcomeDlg - 1295 IU;MsiConfigureServices VersionNT>=600 5850 IE;IsolateComponents - 950 IE IU;LaunchConditions - 100 AE AU IE IU
MigrateFeatureStates - 1200 IE IU;MoveFiles - 3800 IE;PatchFiles - 4090 AE IE;PrepareDlg - 49 IU;ProcessComponents - 1600 IE;ProgressDlg - 1299 IU;RegisterComPlus - 5700 IE;RegisterFonts - 5300 IE
RegisterProduct - 6100 IE;RegisterTypeLibraries - 5500 IE;RegisterUser - 6000 IE;RemoveDuplicateFiles - 3400 IE;RemoveEnvironmentStrings - 3300 IE;RemoveFiles - 3500 IE;RemoveFolders - 3600 IE
RemoveIniValues - 3100 IE;RemoveODBC - 2400 IE;RemoveRegistryValues - 2600 IE;RemoveShortcuts - 3200 IE;ResumeDlg - 1296 IU;RMCCPSearch NOT_Installed 600 IE IU;SelfRegModules - 5600 IE
SelfUnregModules - 2200 IE;SetODBCFolders - 1100 IE;StartServices VersionNT 5900 IE;StopServices VersionNT 1900 IE;MsiUnpublishAssemblies - 1750 IE;UnpublishComponents - 1700 IE;UnpublishFeatures - 1800 IE
UnregisterClassInfo - 2700 IE;UnregisterComPlus - 2100 IE;UnregisterExtensionInfo - 2800 IE;UnregisterFonts - 2500 IE;UnregisterMIMEInfo - 3000 IE;UnregisterProgIdInfo - 2900 IE
UnregisterTypeLibraries - 2300 IE;UserExit - -2 AU IU;ValidateProductID - 700 IE IU;WelcomeDlg - 1297 IU;WelcomeEulaDlg - 1298 IU;WriteEnvironmentStrings - 5200 IE;WriteIniValues - 5100 IE;WriteRegistryValues - 5000 IE"""
ORACLE={}
for l in T.replace("\n",";").split(";"):
    w=l.split(); ORACLE[w[0]]=(None if w[1]=="-" else w[1].replace("_"," "),int(w[2]),sum(globals()[x] for x in w[3:]))
SEQ={"table_admin_execute_sequence":("AdminExecuteSequence",AE),"table_admin_ui_sequence":("AdminUISequence",AU),"table_advt_execute_sequence":("AdvtExecuteSequence",AD),"table_install_execute_sequence":("InstallExecuteSequence",IE),"table_install_ui_sequence":("InstallUISequence",IU)}
BASE={AE:"CostInitialize FileCost CostFinalize InstallValidate InstallInitialize InstallAdminPackage InstallFiles InstallFinalize",AU:"CostInitialize FileCost CostFinalize ExecuteAction",
AD:"CostInitialize CostFinalize InstallValidate InstallInitialize PublishFeatures PublishProduct InstallFinalize",
IE:"ValidateProductID CostInitialize FileCost CostFinalize InstallValidate InstallInitialize ProcessComponents UnpublishFeatures RegisterUser RegisterProduct PublishFeatures PublishProduct InstallFinalize",
IU:"ValidateProductID CostInitialize FileCost CostFinalize ExecuteAction"}
EXTRA={"table_upgrade":{IE:"FindRelatedProducts MigrateFeatureStates",IU:"FindRelatedProducts MigrateFeatureStates"},"table_launch_condition":{IE:"LaunchConditions",IU:"LaunchConditions"},
"table_app_search":{IE:"AppSearch",IU:"AppSearch"},"table_registry":{IE:"RemoveRegistryValues WriteRegistryValues"},"table_ini_file":{IE:"RemoveIniValues WriteIniValues"},"table_remove_ini_file":{IE:"RemoveIniValues"},
"table_shortcut":{AD:"CreateShortcuts",IE:"RemoveShortcuts CreateShortcuts"},"table_file":{IE:"RemoveFiles InstallFiles"},"table_remove_file":{IE:"RemoveFiles"},
"table_service_control":{IE:"StartServices StopServices DeleteServices"},"table_service_install":{IE:"InstallServices"},"table_create_folder":{IE:"RemoveFolders CreateFolders"}}
# harmless when added together with what is required (the action finds no rows to process)
ALLOW={"table_remove_ini_file":{IE:{"WriteIniValues"}},"table_ini_file":{},}
SINK="wixl_msi_table_sequence_add_default_action"
def basetable(P,F,o):
    """table field an object operand was loaded from"""
    r=set()
    for x in origin(P,F,o):
        for _ in range(6):
            if x[0]=="i" and F.insts[x[1]].op=="call" and P.callname(F,F.insts[x[1]]).startswith(("_g_object_ref0","g_object_ref")): x=skipcast(F,F.insts[x[1]].a[0])
        k=loadfield(P,F,x)
        r.add(k[1] if k else None)
    return r
def run(ctx):
    P=ctx.prog("wixl")
    g=ctx.need(P.globals.get("WIXL_MSI_DEFAULT_actions"),"the table of standard actions was not found"); acts=g["init"]
    ctx.need(isinstance(acts,list) and acts,"the table of standard actions is not constant")
    nick=ctx.need(nicks(P,"wixl_msi_default_action_get_type"),"the enumeration of standard actions was not found")
    names=[]
    for i,e in enumerate(acts):
        nm=P.gcstr(e[0]); names.append(nm); w="tools/wixl/msi-default.vala entry %d"%i; ctx.count("actions"); ctx.ok("%s %s"%(w,nm))
        cond=P.gcstr(e[1]) if e[1] else None
        if nm not in ORACLE: ctx.find("action:%s"%nm,w,"the standard action '%s' is not one the Windows Installer knows"%nm); continue
        oc,osq,ofl=ORACLE[nm]
        if (cond or None)!=oc: ctx.find("action:%s:condition"%nm,w,"%s has the condition %r instead of %r"%(nm,cond,oc))
        if e[2]!=osq: ctx.find("action:%s:sequence"%nm,w,"%s has the sequence number %d instead of %d"%(nm,e[2],osq))
        if e[3]&31!=ofl: ctx.find("action:%s:flags"%nm,w,"%s is marked for the sequences 0x%x instead of 0x%x"%(nm,e[3]&31,ofl))
        if nick.get(nm.lower())!=i: ctx.find("action:%s:enum"%nm,w,"entry %d is %s, but that name stands for %s in the enumeration"%(i,nm,nick.get(nm.lower())))
    for nm in set(ORACLE)-set(names): ctx.find("action:%s:missing"%nm,"tools/wixl/msi-default.vala","the standard action %s is missing"%nm)
    if len(nick)>len(acts): ctx.find("enum:length","tools/wixl/msi-default.vala","%d actions are named but only %d described"%(len(nick),len(acts)))
    # classes of the sequence tables
    seen={}
    for F in P.fns.values():
        for I in P.calls(F):
            if P.callname(F,I)!="wixl_msi_table_sequence_set_sequence_table_name": continue
            s=P.cstr(skipcast(F,I.a[1])); fl=set()
            for J in F.insts.values():
                if J.op=="store" and (P.fieldkey(F,J.a[1]) or (0,0))==("_WixlMsiTableSequenceClass","flags"): fl.add(J.a[0][1] if J.a[0][0]=="c" else None)
            want=[b for n,b in SEQ.values() if n==s]; seen[s]=F; ctx.ok("%s %s"%(P.loc(I),s))
            if not want: ctx.find("class:%s"%s,P.loc(I),"'%s' is not a sequence table"%s)
            elif fl!={want[0]}: ctx.find("class:%s"%s,P.loc(I),"%s is marked as sequence kind %s instead of %d"%(s,sorted(map(str,fl)),want[0]))
    for n,b in SEQ.values():
        if n not in seen: ctx.find("class:%s:missing"%n,"tools/wixl/msi.vala","no table class is named %s"%n)
    fields(ctx,P); added(ctx,P,names)
    ctx.rule("Each standard action has its documented condition, number and sequences; with exactly one table holding rows, the actions added to each sequence are the base set and those that process that table.")
def fields(ctx,P):
    F=ctx.need(P.fn(SINK),"the function adding a default action was not found"); ctx.fns([F.src])
    A="_WixlMsiTableSequenceAction"; INFO="_WixlMSIDefaultActionInfo"
    PAIR={"name":"name","condition":"condition","sequence":"sequence"}; got=set()
    for I in F.insts.values():
        if I.op!="store": continue
        k=P.fieldkey(F,I.a[1])
        if not k or k[0]!=A or k[1] not in PAIR: continue
        if F.insts.get(I.a[1][1]) is None: continue
        src={(loadfield(P,F,y) or (None,None)) for y in valsrc(P,F,I.a[0])}
        if any(s[0]==A for s in src): continue
        ctx.count("stored fields"); ctx.ok("%s %s"%(P.loc(I),k[1]))
        if not any(s[0]==INFO for s in src):
            if I.a[0]==("n",): continue
            ctx.find("default:%s"%k[1],P.loc(I),"the %s of an added standard action does not come from the table of standard actions"%k[1]); continue
        got.add(k[1])
        if {s for s in src if s[0]}!={(INFO,PAIR[k[1]])}: ctx.find("default:%s"%k[1],P.loc(I),"the %s of an added standard action is filled from its %s"%(k[1],sorted(s[1] for s in src if s[0])))
    for f in set(PAIR)-got: ctx.find("default:%s:missing"%f,P.loc(F.blocks[0].insts[0]),"the %s of an added standard action is never set"%f)
    # an action that is in the table already because Before or After of another action names it
    X=Sccp(P,lambda P,F,I,n,a: ("nn",) if n=="g_hash_table_lookup" else ("null",) if n in("field:action","field:condition") and P.fieldkey(F,I.a[0])[0]==A else None); X.stores={}
    X.run(F,[("nn",),UNK]); ctx.ok("action named by Before or After")
    if not any(k==(A,"condition") for k,x in X.stores.values()): ctx.find("default:condition:named",P.loc(F.blocks[0].insts[0]),"a standard action that Before or After of another action named first never gets its condition")
    S=ctx.need(P.fn("wixl_msi_table_sequence_add"),"the function adding a sequence row was not found"); n=0
    for G,I,_ in allcalls(P,{S.src}):
        for p,f in(("action","name"),("condition","condition"),("sequence","sequence")):
            i=S.pn.index(p); n+=1; ctx.ok("%s %s"%(P.loc(I),p))
            k={(loadfield(P,G,y) or (None,None)) for y in valsrc(P,G,I.a[i])}
            ctx.count("stored fields")
            if {x for x in k if x[0]==A}=={(A,f)}: continue
            if any(x[0]==A for x in k): ctx.find("row:%s"%p,P.loc(I),"the %s column of a sequence row receives the %s of the action"%(p,sorted(str(x[1]) for x in k)))
    # OnExit values
    V=ctx.need(P.fn("wixl_wix_builder_real_visit_action"),"the handler of sequence elements was not found"); ctx.fns([V.src])
    for v,num in(("success",-1),("cancel",-2),("error",-3),("suspend",-4)):
        X=Sccp(P,lambda P,F,I,n,a: ("s",v) if n=="wixl_wix_action_get_OnExit" else None); X.stores={}
        X.run(V,[("nn",)]*len(V.params)); st=[(i,x) for i,(k,x) in X.stores.items() if k==(A,"sequence")]
        ctx.ok("OnExit=%s"%v)
        if not st or any((lambda c:c is None or signed(c&0xffffffff,32)!=num)(const(x)) for i,x in st): ctx.find("onexit:%s"%v,P.loc(V.blocks[0].insts[0]),"OnExit=\"%s\" must give the action the sequence number %d, stores %s"%(v,num,[const(x) and signed(const(x)&0xffffffff,32) for i,x in st]))
def valsrc(P,F,o,depth=0):
    out=set()
    for x in origin(P,F,o):
        if x[0]=="i" and F.insts[x[1]].op=="call":
            I=F.insts[x[1]]
            if P.callname(F,I) in("g_strdup","strdup") and depth<6: out|=valsrc(P,F,I.a[0],depth+1); continue
        out.add(x)
    return out
def added(ctx,P,names):
    F=ctx.need(P.fn("wixl_wix_builder_sequence_actions"),"the function filling the sequences was not found"); ctx.fns([F.src])
    reach={f for f in P.fns if SINK in P.reachable([f])} if True else set()
    # the sequence each added action goes to: forward propagation of the last sequence table stored in the variable the
    # closure uses
    inn={b:None for b in range(len(F.blocks))}; inn[0]=frozenset(); work=[0]; at={}
    while work:
        b=work.pop(); cur=inn[b]
        for I in F.blocks[b].insts:
            if I.op=="store":
                t={x for x in basetable(P,F,I.a[0]) if x in SEQ}
                if t: cur=frozenset(t)
            elif I.op=="call": at[I.id]=cur
        for s in F.blocks[b].succ:
            n=cur if inn[s] is None else inn[s]|cur
            if n!=inn[s]: inn[s]=n; work.append(s)
    tabs=set()
    for I in F.insts.values():
        k=loadfield(P,F,("i",I.id)) if I.op=="load" else None
        if k and k[1].startswith("table_") and k[1] not in SEQ: tabs.add(k[1])
    ctx.need(len(tabs&set(EXTRA))>=10,"the tables whose rows decide about actions are not tested as expected")
    res={}
    for full in sorted(tabs|set(EXTRA))+[None]:
        def asm(P,F,I,n,a,full=full):
            if n.startswith("field:") and F.insts[I.a[0][1]].op=="getelementptr":
                t=basetable(P,F,F.insts[I.a[0][1]].a[0])
                if len(t)==1 and next(iter(t)) in tabs|set(EXTRA): return ("nn",) if t=={full} else ("null",)
            if n=="g_list_length": return K(0) if a[0]==("null",) else K(1) if a[0]==("nn",) else None
            return None
        _,sites,sub=Sccp(P,asm).run(F,[("nn",)]*2); per={b:set() for n,b in SEQ.values()}; undecided=False
        for i,(n,a) in sites.items():
            I=F.insts[i]
            if not any(c in reach for c in P.callees(F,I)): continue
            ks=[const(x) for x,o in zip(a,I.a) if x[0]=="k"]
            tab={x for o in I.a for x in basetable(P,F,o) if x in SEQ} or at.get(i) or set()
            if len(ks)!=1 or ks[0] is None or ks[0]>=len(names) or len(tab)!=1: undecided=True; continue
            per[SEQ[next(iter(tab))][1]].add((names[ks[0]],i))
        ctx.count("row combinations"); ctx.ok("%s rows in %s only"%(P.loc(F.blocks[0].insts[0]),full or "no table"))
        if undecided: ctx.count("undecided")
        for n,b in SEQ.values():
            want=set(BASE[b].split())|set(EXTRA.get(full,{}).get(b,"").split()); got={x for x,i in per[b]}
            if not undecided:
                for x in sorted(want-got): ctx.find("missing:%s:%s:%s"%(n,x,full if x not in BASE[b].split() else "-"),P.loc(F.blocks[0].insts[0]),"%s is not added to %s%s"%(x,n," although %s has rows"%full[6:] if x not in BASE[b].split() else ""))
            for x,i in sorted(per[b]):
                if x not in want|ALLOW.get(full,{}).get(b,set()): ctx.find("extra:%s:%s:%s"%(n,x,full if any(x in e.get(b,"").split() for e in EXTRA.values()) else "-"),P.loc(F.insts[i]),"%s is added to %s%s"%(x,n," when only %s has rows"%full[6:] if full else " although no table it processes has rows"))
