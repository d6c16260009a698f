// irdump: links LLVM bitcode modules, inlines helpers that are not in the
// reference function list, lifts locals to SSA and prints the resolved program
// (functions, instructions, types, constants, debug names) as JSON.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <set>
#include <map>
#include <fstream>
using namespace llvm;
static const DataLayout *DL;
static std::string tyName(Type *T){ std::string s; raw_string_ostream o(s);
  if(auto*ST=dyn_cast<StructType>(T)) if(ST->hasName()) return "%"+ST->getName().str();
  T->print(o,false,true); return o.str(); }
static std::map<std::string,std::map<uint64_t,std::string>> fieldNames; // struct DI name -> offset bits -> name
static std::map<std::string,DICompositeType*> diStructs;
static DIType* strip(DIType*T){ while(T){ if(auto*D=dyn_cast<DIDerivedType>(T)){ unsigned t=D->getTag();
   if(t==dwarf::DW_TAG_typedef||t==dwarf::DW_TAG_const_type||t==dwarf::DW_TAG_volatile_type||t==dwarf::DW_TAG_restrict_type){T=D->getBaseType();continue;} } break;} return T; }
static std::string diName(DIType*T,int d=0){ if(!T) return "void"; if(d>8) return "?";
  if(auto*D=dyn_cast<DIDerivedType>(T)){ switch(D->getTag()){
    case dwarf::DW_TAG_pointer_type: return diName(D->getBaseType(),d+1)+"*";
    case dwarf::DW_TAG_const_type: return "const "+diName(D->getBaseType(),d+1);
    case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_restrict_type: return diName(D->getBaseType(),d+1);
    case dwarf::DW_TAG_typedef: return D->getName().str(); default: break; } return D->getName().str(); }
  if(auto*C=dyn_cast<DICompositeType>(T)){ if(C->getTag()==dwarf::DW_TAG_array_type) return diName(C->getBaseType(),d+1)+"[]"; return C->getName().str(); }
  if(isa<DISubroutineType>(T)) return "fn";
  return T->getName().str(); }
static std::string structField(StructType*ST,unsigned i){
  if(!ST->hasName()) return std::to_string(i);
  StringRef n=ST->getName(); size_t p=n.find('.'); std::string base=(p==StringRef::npos?n:n.substr(p+1)).str();
  auto it=fieldNames.find(base);
  if(it==fieldNames.end()){ // strip numeric suffix
    size_t q=base.rfind('.'); if(q!=std::string::npos) it=fieldNames.find(base.substr(0,q)); }
  if(it==fieldNames.end()) return std::to_string(i);
  uint64_t off=DL->getStructLayout(ST)->getElementOffsetInBits(i);
  auto jt=it->second.find(off); if(jt==it->second.end()) return std::to_string(i); return jt->second; }
static json::Value constJ(const Constant*C,int depth);
static json::Value intJ(const APInt&V){ if(V.getBitWidth()<=64) return json::Value(V.getSExtValue()); SmallString<40>s; V.toString(s,10,true); return json::Value(s.str().str()); }
struct FnCtx{ std::map<const Value*,int> ids; std::map<const BasicBlock*,int> bb; };
static json::Value opJ(const Value*V,FnCtx*F);
static json::Array gepPath(const GEPOperator*G,FnCtx*F){ json::Array path; bool first=true; Type*cur=G->getSourceElementType();
  for(auto it=G->idx_begin();it!=G->idx_end();++it){ Value*I=*it;
    if(first){ path.push_back(json::Array{"*",tyName(cur),opJ(I,F)}); first=false; continue; }
    if(auto*ST=dyn_cast<StructType>(cur)){ unsigned i=cast<ConstantInt>(I)->getZExtValue(); path.push_back(json::Array{"f",tyName(ST),(int64_t)i,structField(ST,i)}); cur=ST->getElementType(i); }
    else if(auto*AT=dyn_cast<ArrayType>(cur)){ path.push_back(json::Array{"[",(int64_t)AT->getNumElements(),opJ(I,F),(int64_t)DL->getTypeAllocSize(AT->getElementType())}); cur=AT->getElementType(); }
    else path.push_back(json::Array{"?"}); }
  return path; }
static json::Value opJ(const Value*V,FnCtx*F){
  if(auto*CI=dyn_cast<ConstantInt>(V)) return json::Array{"c",intJ(CI->getValue())};
  if(isa<ConstantPointerNull>(V)) return json::Array{"n"};
  if(isa<UndefValue>(V)) return json::Array{"u"};
  if(auto*G=dyn_cast<GlobalValue>(V)) return json::Array{"g",G->getName()};
  if(auto*CE=dyn_cast<ConstantExpr>(V)){
    if(CE->getType()->isIntegerTy()) if(auto*FC=ConstantFoldConstant(CE,*DL)) if(auto*CI=dyn_cast<ConstantInt>(FC)) return json::Array{"c",intJ(CI->getValue())};
    if(auto*GO=dyn_cast<GEPOperator>(CE)) return json::Array{"ge",opJ(GO->getPointerOperand(),F),gepPath(GO,F)};
    json::Array a; for(auto&o:CE->operands()) a.push_back(opJ(o,F));
    return json::Array{"ce",CE->getOpcodeName(),std::move(a)}; }
  if(auto*CF=dyn_cast<ConstantFP>(V)){ return json::Array{"f",CF->getValueAPF().convertToDouble()}; }
  if(auto*A=dyn_cast<Argument>(V)) return json::Array{"a",(int64_t)A->getArgNo()};
  if(auto*BB=dyn_cast<BasicBlock>(V)) return json::Array{"b",F->bb[BB]};
  if(F){ auto it=F->ids.find(V); if(it!=F->ids.end()) return json::Array{"i",it->second}; }
  if(isa<Constant>(V)) return json::Array{"k",constJ(cast<Constant>(V),0)};
  return json::Array{"?"}; }
static json::Value constJ(const Constant*C,int depth){
  if(depth>6) return json::Array{"?"};
  if(auto*CI=dyn_cast<ConstantInt>(C)) return intJ(CI->getValue());
  if(isa<ConstantPointerNull>(C)) return nullptr;
  if(auto*CDS=dyn_cast<ConstantDataSequential>(C)){ if(CDS->isString(8)){ StringRef s=CDS->getRawDataValues(); 
      if(json::isUTF8(s)) return json::Object{{"s",s.str()}}; json::Array b; for(unsigned char c:s) b.push_back((int64_t)c); return b; }
    json::Array a; for(unsigned i=0;i<CDS->getNumElements();i++) a.push_back(constJ(CDS->getElementAsConstant(i),depth+1)); return a; }
  if(isa<ConstantAggregateZero>(C)){ 
    if(auto*AT=dyn_cast<ArrayType>(C->getType())) return json::Object{{"zero",(int64_t)AT->getNumElements()}};
    if(auto*ST=dyn_cast<StructType>(C->getType())){ json::Array a; for(unsigned i=0;i<ST->getNumElements();i++) a.push_back(constJ(Constant::getNullValue(ST->getElementType(i)),depth+1)); return a; }
    return 0; }
  if(isa<ConstantAggregate>(C)){ json::Array a; for(auto&o:C->operands()) a.push_back(constJ(cast<Constant>(o),depth+1)); return a; }
  if(isa<UndefValue>(C)) return json::Array{"u"};
  return json::Object{{"op",opJ(C,nullptr)}}; }
int main(int argc,char**argv){
  std::set<std::string> base; std::vector<std::string> ins; std::string out="-"; std::string passes; std::string keepPrefix; bool noInline=false;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; if(a=="--baseline"){ std::ifstream f(argv[++i]); std::string l; while(std::getline(f,l)) if(!l.empty()) base.insert(l);} else if(a=="-o") out=argv[++i]; else if(a=="--passes") passes=argv[++i]; else if(a=="--no-inline") noInline=true; else ins.push_back(a);}  
  LLVMContext Ctx; SMDiagnostic Err; std::unique_ptr<Module> M;
  for(auto&f:ins){ auto m=parseIRFile(f,Err,Ctx); if(!m){ Err.print(argv[0],errs()); return 2; }
    if(!M) M=std::move(m); else if(Linker::linkModules(*M,std::move(m))){ errs()<<"link failed "<<f<<"\n"; return 2; } }
  // inline helpers that the reference tree does not have
  json::Array inlined;
  if(!noInline) for(auto&F:*M){ if(F.isDeclaration()) continue; auto*SP=F.getSubprogram(); std::string n=SP?SP->getName().str():F.getName().str();
    if(base.count(n)) continue; if(F.isVarArg()) continue; if(F.hasAddressTaken()) continue;
    bool rec=false; for(auto&I:instructions(F)) if(auto*CB=dyn_cast<CallBase>(&I)) if(CB->getCalledFunction()==&F) rec=true; if(rec) continue;
    F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); F.addFnAttr(Attribute::AlwaysInline); inlined.push_back(n); }
  { PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
    ModulePassManager MPM; if(passes.empty()) passes="always-inline,function(lower-expect,mem2reg)";
    if(auto e=PB.parsePassPipeline(MPM,passes)){ errs()<<"bad passes\n"; return 2;} MPM.run(*M,MAM); }
  DL=&M->getDataLayout();
  DebugInfoFinder DF; DF.processModule(*M);
  json::Object enums, structs;
  for(auto*T:DF.types()){
    std::string tdn; DIType*U=T;
    if(auto*D=dyn_cast<DIDerivedType>(T)) if(D->getTag()==dwarf::DW_TAG_typedef){ tdn=D->getName().str(); U=strip(D); if(!U) continue; }
    auto*C=dyn_cast<DICompositeType>(U); if(!C) continue;
    std::string n=C->getName().str(); if(n.empty()) n=tdn; if(n.empty()) n="anon";
    if(C->getTag()==dwarf::DW_TAG_enumeration_type){ json::Object e; for(auto*x:C->getElements()) if(auto*en=dyn_cast<DIEnumerator>(x)) e[en->getName()]=intJ(en->getValue()); if(!tdn.empty()) enums[tdn]=json::Object(e); enums[n=="anon"?("anon@"+std::to_string(C->getLine())):n]=std::move(e); }
    else if(C->getTag()==dwarf::DW_TAG_structure_type||C->getTag()==dwarf::DW_TAG_union_type){ auto&m=fieldNames[n]; json::Array fs;
      for(auto*x:C->getElements()) if(auto*d=dyn_cast<DIDerivedType>(x)) if(d->getTag()==dwarf::DW_TAG_member){ if(!m.count(d->getOffsetInBits())) m[d->getOffsetInBits()]=d->getName().str(); fs.push_back(json::Array{d->getName().str(),(int64_t)d->getOffsetInBits(),(int64_t)d->getSizeInBits(),diName(d->getBaseType())}); }
      structs[n]=std::move(fs); } }
  json::Object fns, globs, sizes;
  for(auto*ST:M->getIdentifiedStructTypes()) if(ST->isSized()) sizes["%"+ST->getName().str()]=(int64_t)DL->getTypeAllocSize(ST);
  for(auto&G:M->globals()){ json::Object g; g["t"]=tyName(G.getValueType()); g["size"]=(int64_t)(G.getValueType()->isSized()?DL->getTypeAllocSize(G.getValueType()):0); g["const"]=G.isConstant(); g["local"]=G.hasLocalLinkage();
    if(G.hasInitializer()) g["init"]=constJ(G.getInitializer(),0); SmallVector<DIGlobalVariableExpression*,1> dg; G.getDebugInfo(dg); if(!dg.empty()){ g["name"]=dg[0]->getVariable()->getName(); g["file"]=dg[0]->getVariable()->getFilename(); g["line"]=(int64_t)dg[0]->getVariable()->getLine(); g["dit"]=diName(dg[0]->getVariable()->getType()); }
    globs[G.getName()]=std::move(g); }
  std::vector<std::string> files; std::map<std::string,int> fidx; std::vector<std::string> scopes; std::map<std::string,int> sidx;
  auto FI=[&](const std::string&s){ auto it=fidx.find(s); if(it!=fidx.end()) return it->second; int n=files.size(); files.push_back(s); fidx[s]=n; return n; };
  auto SI=[&](const std::string&s){ auto it=sidx.find(s); if(it!=sidx.end()) return it->second; int n=scopes.size(); scopes.push_back(s); sidx[s]=n; return n; };
  for(auto&F:*M){ json::Object f; f["ret"]=tyName(F.getReturnType()); f["vararg"]=F.isVarArg(); json::Array ps; for(auto&A:F.args()) ps.push_back(tyName(A.getType())); f["params"]=std::move(ps);
    f["decl"]=F.isDeclaration();
    if(auto*SP=F.getSubprogram()){ f["src"]=SP->getName(); f["file"]=SP->getFilename(); f["line"]=(int64_t)SP->getLine(); json::Array tn; if(auto*T=SP->getType()) for(auto x:T->getTypeArray()) tn.push_back(diName(x)); f["dit"]=std::move(tn); }
    f["local"]=F.hasLocalLinkage(); f["at"]=F.hasAddressTaken();
    f["noreturn"]=F.hasFnAttribute(Attribute::NoReturn);
    if(F.isDeclaration()){ fns[F.getName()]=std::move(f); continue; }
    FnCtx X; int id=0,b=0; json::Object names;
    for(auto&BB:F){ X.bb[&BB]=b++; for(auto&I:BB) if(!isa<DbgInfoIntrinsic>(I)) X.ids[&I]=id++; }
    json::Array blocks; json::Array pn; std::map<int,std::string> argn;
    for(auto&BB:F){ json::Array insts; for(auto&I:BB){
      if(auto*DV=dyn_cast<DbgVariableIntrinsic>(&I)){ std::string vn=DV->getVariable()->getName().str(); std::string vt=diName(DV->getVariable()->getType()); for(auto*V:DV->location_ops()){ if(auto*A=dyn_cast<Argument>(V)){ argn[A->getArgNo()]=vn; } else { auto it=X.ids.find(V); if(it!=X.ids.end()) { std::string k=std::to_string(it->second); if(!names.get(k)) names[k]=json::Array{vn,vt}; } } } continue; }
      if(isa<DbgInfoIntrinsic>(I)) continue;
      json::Object o; o["o"]=I.getOpcodeName(); o["t"]=tyName(I.getType());
      if(auto&L=I.getDebugLoc()){ auto*S=cast<DILocalScope>(L.getScope()); std::string fn; if(auto*SP=S->getSubprogram()) fn=SP->getName().str(); 
         json::Array loc{FI(S->getFilename().str()),(int64_t)L.getLine(),(int64_t)L.getCol(),SI(fn)}; o["l"]=std::move(loc); }
      if(auto*G=dyn_cast<GetElementPtrInst>(&I)){ o["a"]=json::Array{opJ(G->getPointerOperand(),&X)}; o["p"]=gepPath(cast<GEPOperator>(G),&X); }
      else if(auto*C=dyn_cast<CallBase>(&I)){ json::Array a; for(auto&x:C->args()) a.push_back(opJ(x,&X)); o["a"]=std::move(a); o["c"]=opJ(C->getCalledOperand(),&X); if(C->doesNotReturn()) o["nr"]=true; }
      else if(auto*P=dyn_cast<PHINode>(&I)){ json::Array a; for(unsigned i=0;i<P->getNumIncomingValues();i++) a.push_back(json::Array{opJ(P->getIncomingValue(i),&X),X.bb[P->getIncomingBlock(i)]}); o["phi"]=std::move(a); }
      else if(auto*SW=dyn_cast<SwitchInst>(&I)){ o["a"]=json::Array{opJ(SW->getCondition(),&X)}; json::Array cs; for(auto&c:SW->cases()) cs.push_back(json::Array{intJ(c.getCaseValue()->getValue()),X.bb[c.getCaseSuccessor()]}); o["cases"]=std::move(cs); o["def"]=X.bb[SW->getDefaultDest()]; }
      else if(auto*BR=dyn_cast<BranchInst>(&I)){ if(BR->isConditional()){ o["a"]=json::Array{opJ(BR->getCondition(),&X)}; o["s"]=json::Array{X.bb[BR->getSuccessor(0)],X.bb[BR->getSuccessor(1)]}; } else o["s"]=json::Array{X.bb[BR->getSuccessor(0)]}; }
      else { json::Array a; for(auto&x:I.operands()) a.push_back(opJ(x,&X)); o["a"]=std::move(a);
        if(auto*A=dyn_cast<AllocaInst>(&I)){ o["at"]=tyName(A->getAllocatedType()); o["sz"]=(int64_t)DL->getTypeAllocSize(A->getAllocatedType()); }
        if(auto*C=dyn_cast<CmpInst>(&I)) { o["pred"]=CmpInst::getPredicateName(C->getPredicate()); o["ot"]=tyName(C->getOperand(0)->getType()); }
        if(auto*A=dyn_cast<AtomicRMWInst>(&I)) o["pred"]=AtomicRMWInst::getOperationName(A->getOperation());
        if(isa<CastInst>(&I)) o["ot"]=tyName(I.getOperand(0)->getType());
        if(auto*S=dyn_cast<StoreInst>(&I)) o["vt"]=tyName(S->getValueOperand()->getType()); }
      insts.push_back(std::move(o)); }
      blocks.push_back(std::move(insts)); }
    for(unsigned i=0;i<F.arg_size();i++) pn.push_back(argn.count(i)?argn[i]:""); f["pn"]=std::move(pn); f["vn"]=std::move(names); f["b"]=std::move(blocks); fns[F.getName()]=std::move(f); }
  json::Array fl; for(auto&s:files) fl.push_back(s); json::Array sc; for(auto&s:scopes) sc.push_back(s);
  std::error_code EC; raw_fd_ostream os(out,EC); if(EC){ errs()<<EC.message(); return 2; }
  os<<json::Value(json::Object{{"fns",std::move(fns)},{"globals",std::move(globs)},{"enums",std::move(enums)},{"structs",std::move(structs)},{"sizes",std::move(sizes)},{"files",std::move(fl)},{"scopes",std::move(sc)},{"inlined",std::move(inlined)}})<<"\n";
  return 0; }
