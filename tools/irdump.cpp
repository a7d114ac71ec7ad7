// irdump: link LLVM modules and write a line-oriented JSON description of every defined function
// (resolved callees, byte offsets, loops, source lines), of the struct layouts, of the globals and of the
// class members known to the debug info. No code of the analysed program is executed.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
#include <set>
using namespace llvm;

static std::string tstr(Type* t) { std::string s; raw_string_ostream o(s); if(auto* st=dyn_cast<StructType>(t)) { if(st->hasName()) return "%"+st->getName().str(); } t->print(o); return o.str(); }

struct Fn {
  const DataLayout& DL;
  std::map<const Value*, int> ids;
  Fn(const DataLayout& d) : DL(d) {}
  json::Array gep(const GEPOperator* g);
  json::Value op(const Value* v) {
    if(auto* ci = dyn_cast<ConstantInt>(v)) {
      SmallString<32> s; ci->getValue().toStringUnsigned(s);
      return json::Array{"c", std::string(s), (int64_t)ci->getBitWidth()};
    }
    if(isa<ConstantPointerNull>(v)) return json::Array{"null"};
    if(isa<UndefValue>(v)) return json::Array{"undef"};
    if(auto* cf = dyn_cast<ConstantFP>(v)) { SmallString<32> s; cf->getValueAPF().toString(s); return json::Array{"f", std::string(s)}; }
    if(auto* g = dyn_cast<GlobalValue>(v)) return json::Array{"g", g->getName().str()};
    if(isa<ConstantAggregateZero>(v)) return json::Array{"zero", tstr(v->getType())};
    if(auto* ce = dyn_cast<ConstantExpr>(v)) {
      if(auto* ge = dyn_cast<GEPOperator>(ce)) { json::Array a{"gep"}; a.push_back(op(ge->getPointerOperand())); a.push_back(gep(ge)); return a; }
      json::Array a{"ce", ce->getOpcodeName()}; for(auto& o : ce->operands()) a.push_back(op(o)); return a;
    }
    if(auto* ca = dyn_cast<ConstantAggregate>(v)) { json::Array a{"agg"}; for(auto& o : ca->operands()) a.push_back(op(o)); return a; }
    if(auto* cd = dyn_cast<ConstantDataSequential>(v)) { json::Array a{"agg"}; for(unsigned i=0;i<cd->getNumElements();++i) a.push_back(op(cd->getElementAsConstant(i))); return a; }
    if(isa<BasicBlock>(v)) return json::Array{"bb", ids.at(v)};
    auto it = ids.find(v); if(it != ids.end()) return json::Array{"v", it->second};
    return json::Array{"?"};
  }
};
// [source type, const byte offset, [[operand, scale]...], [[struct,field]...]]
json::Array Fn::gep(const GEPOperator* g) {
  int64_t off=0; json::Array idx; json::Array path; 
  for(auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
    const Value* o = gti.getOperand();
    if(StructType* st = gti.getStructTypeOrNull()) {
      unsigned f = cast<ConstantInt>(o)->getZExtValue();
      off += DL.getStructLayout(st)->getElementOffset(f);
      path.push_back(json::Array{tstr(st), (int64_t)f});
    } else {
      int64_t sz = DL.getTypeAllocSize(gti.getIndexedType());
      if(auto* c = dyn_cast<ConstantInt>(o)) off += c->getSExtValue()*sz;
      else idx.push_back(json::Array{op(o), sz});
    }
  }
  return json::Array{tstr(g->getSourceElementType()), off, std::move(idx), std::move(path)};
}

// full name of a debug info type, typedefs and const resolved
static std::string tname(const DIType* t) {
  if(!t) return "void";
  if(auto* d = dyn_cast<DIDerivedType>(t)) {
    switch(d->getTag()) {
      case dwarf::DW_TAG_pointer_type: return tname(d->getBaseType())+"*";
      case dwarf::DW_TAG_reference_type: case dwarf::DW_TAG_rvalue_reference_type: return tname(d->getBaseType())+"&";
      case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_restrict_type: return tname(d->getBaseType());
      default: return d->getName().str();
    }
  }
  if(auto* ct = dyn_cast<DICompositeType>(t)) {
    if(ct->getTag()==dwarf::DW_TAG_array_type) return tname(ct->getBaseType())+"[]";
    std::string q = ct->getName().str();
    for(DIScope* s = ct->getScope(); s; s = s->getScope()) { if(!(isa<DINamespace>(s) || isa<DICompositeType>(s))) break; if(auto* ns = dyn_cast<DINamespace>(s)) if(ns->getExportSymbols()) continue; q = s->getName().str()+"::"+q; }
    return q;
  }
  return t->getName().str();
}

static json::Value loc(const Instruction& I) {
  if(const DebugLoc& d = I.getDebugLoc()) {
    auto* sc = d->getScope();
    return json::Array{sc->getFilename().str(), (int64_t)d.getLine()};
  }
  return nullptr;
}

int main(int argc, char** argv) {
  if(argc < 3) { errs() << "usage: irdump OUT IN...\n"; return 2; }
  json::Object head; head["k"]="head";
  json::Object structs; json::Array globs, dtypes, decls; 
  std::set<std::string> seen_types, seen_fn, seen_glob, seen_decl;
  std::string body; raw_string_ostream out(body);
  // the modules are kept apart, linking them would merge structurally equal types
  for(int mi=2; mi<argc; ++mi) {
  LLVMContext C; SMDiagnostic E;
  std::unique_ptr<Module> M = parseIRFile(argv[mi], E, C);
  if(!M) { E.print("irdump", errs()); return 2; }
  for(auto& F : *M) if(!F.isDeclaration() && F.hasLocalLinkage()) F.setName(F.getName()+".m"+std::to_string(mi));
  for(auto& g : M->globals()) if(!g.isDeclaration() && g.hasLocalLinkage()) g.setName(g.getName()+".m"+std::to_string(mi));
  { // promote stack slots to values
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
    ModulePassManager MPM; MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.run(*M, MAM);
  }
  const DataLayout& DL = M->getDataLayout();

  for(StructType* st : M->getIdentifiedStructTypes()) {
    if(st->isOpaque()) continue;
    json::Array f; auto* L = DL.getStructLayout(st);
    for(unsigned i=0;i<st->getNumElements();++i) f.push_back(json::Array{(int64_t)L->getElementOffset(i), (int64_t)DL.getTypeAllocSize(st->getElementType(i)), tstr(st->getElementType(i))});
    structs["%"+st->getName().str()] = json::Object{{"size",(int64_t)DL.getTypeAllocSize(st)},{"f",std::move(f)}};
  }
  for(auto& g : M->globals()) {
    if(g.getName().starts_with("llvm.")) continue;
    if(g.isDeclaration() || !seen_glob.insert(g.getName().str()).second) continue;
    SmallVector<DIGlobalVariableExpression*,1> gv; g.getDebugInfo(gv);
    std::string file; int64_t line=0; bool cq=false; if(!gv.empty()) { for(const DIType* t = gv[0]->getVariable()->getType(); t; ) { auto* d = dyn_cast<DIDerivedType>(t); if(!d) { if(auto* ct = dyn_cast<DICompositeType>(t)) if(ct->getTag()==dwarf::DW_TAG_array_type) { t = ct->getBaseType(); continue; } break; } if(d->getTag()==dwarf::DW_TAG_const_type) { cq=true; break; } if(d->getTag()!=dwarf::DW_TAG_typedef) break; t = d->getBaseType(); } file=gv[0]->getVariable()->getFilename().str(); line=gv[0]->getVariable()->getLine(); }
    json::Object o{{"n",g.getName().str()},{"d",demangle(g.getName().str())},{"const",g.isConstant()},{"cq",cq},{"tls",g.isThreadLocal()},{"decl",g.isDeclaration()},{"file",file},{"line",line},{"t",tstr(g.getValueType())}};
    // constant initialiser of simple tables/scalars
    if(g.hasInitializer()) { Fn F(DL); if(g.isConstant()) o["init"]=F.op(g.getInitializer()); }
    globs.push_back(std::move(o));
  }
  DebugInfoFinder DIF; DIF.processModule(*M);
  for(DIType* t : DIF.types()) {
    auto* ct = dyn_cast<DICompositeType>(t);
    if(!ct) continue;
    if(ct->isForwardDecl()) continue;
    std::string nm = ct->getName().str(); std::string q = tname(ct);
    if(nm.empty()) continue;
    if(!seen_types.insert(q).second) continue;
    json::Array el;
    auto add_elems = [&](auto& self, DICompositeType* c, int64_t base) -> void {
     for(auto* e : c->getElements()) {
      if(auto* d = dyn_cast<DIDerivedType>(e)) {
        if(d->isStaticMember()) continue;
        DIType* bt = d->getBaseType(); 
        if(d->getTag()==dwarf::DW_TAG_member && d->getName().empty()) { if(auto* u = dyn_cast_or_null<DICompositeType>(bt)) { self(self, u, base + (int64_t)d->getOffsetInBits()); continue; } }
        el.push_back(json::Object{{"k", d->getTag()==dwarf::DW_TAG_inheritance?"base":"m"},{"n",d->getName().str()},{"off",base+(int64_t)d->getOffsetInBits()},{"sz",(int64_t)d->getSizeInBits()},{"bf",d->isBitField()},{"t", tname(bt)}});
      } else if(auto* sp = dyn_cast<DISubprogram>(e)) {
        el.push_back(json::Object{{"k","f"},{"n",sp->getName().str()},{"ln",sp->getLinkageName().str()},{"def",sp->isDefinition()},{"del",sp->isDeleted()},{"access",(int64_t)(sp->getFlags() & DINode::FlagAccessibility)},{"art",sp->isArtificial()},{"line",(int64_t)sp->getLine()},{"file",sp->getFilename().str()},{"pure",sp->getVirtuality()==2}});
      }
     }
    };
    add_elems(add_elems, ct, 0);
    dtypes.push_back(json::Object{{"n",q},{"sz",(int64_t)ct->getSizeInBits()},{"tag",(int64_t)ct->getTag()},{"file",ct->getFilename().str()},{"line",(int64_t)ct->getLine()},{"el",std::move(el)}});
  }
  for(auto& F : *M) if(F.isDeclaration() && seen_decl.insert(F.getName().str()).second) decls.push_back(json::Object{{"n",F.getName().str()},{"d",demangle(F.getName().str())}});

  for(auto& F : *M) {
    if(F.isDeclaration() || !seen_fn.insert(F.getName().str()).second) continue;
    Fn fn(DL); int n=0;
    json::Array args;
    for(auto& a : F.args()) { fn.ids[&a]=n; json::Object o{{"id",n},{"n",a.getName().str()},{"t",tstr(a.getType())}}; 
      if(a.hasStructRetAttr()) o["sret"]=tstr(a.getParamStructRetType()); if(a.hasByValAttr()) o["byval"]=tstr(a.getParamByValType()); args.push_back(std::move(o)); ++n; }
    int b=0; for(auto& B : F) fn.ids[&B]=b++;
    for(auto& B : F) for(auto& I : B) if(!I.getType()->isVoidTy()) fn.ids[&I]=n++;
    json::Object fo{{"k","fn"},{"n",F.getName().str()},{"d",demangle(F.getName().str())},{"args",std::move(args)},{"ret",tstr(F.getReturnType())},{"link",(int64_t)F.getLinkage()},{"internal",F.hasLocalLinkage()}};
    if(auto* sp = F.getSubprogram()) { fo["file"]=sp->getFilename().str(); fo["line"]=(int64_t)sp->getLine(); fo["dn"]=sp->getName().str();
      if(auto* ty = sp->getType()) { json::Array pt; for(auto* p : ty->getTypeArray()) pt.push_back(tname(p)); fo["pt"]=std::move(pt); }
      fo["art"]=sp->isArtificial();}
    json::Array blocks;
    for(auto& B : F) {
      json::Array insts;
      for(auto& I : B) {
        if(isa<DbgInfoIntrinsic>(I)) continue;
        if(auto* ii = dyn_cast<IntrinsicInst>(&I)) if(ii->isLifetimeStartOrEnd()) continue;
        json::Object o{{"o",I.getOpcodeName()},{"t",tstr(I.getType())}};
        if(!I.getType()->isVoidTy()) o["r"]=fn.ids[&I];
        o["l"]=loc(I);
        if(const DebugLoc& d = I.getDebugLoc()) o["cl"]=(int64_t)d.getCol();
        if(auto* al = dyn_cast<AllocaInst>(&I)) { o["at"]=tstr(al->getAllocatedType()); o["sz"]=(int64_t)DL.getTypeAllocSize(al->getAllocatedType()); o["n"]=al->getName().str(); for(auto* dd : findDbgDeclares(al)) { o["dt"]=tname(dd->getVariable()->getType()); break; } }
        else if(auto* g = dyn_cast<GetElementPtrInst>(&I)) { o["a"]=json::Array{fn.op(g->getPointerOperand())}; o["g"]=fn.gep(cast<GEPOperator>(g)); }
        else if(auto* ph = dyn_cast<PHINode>(&I)) { json::Array a; for(unsigned i=0;i<ph->getNumIncomingValues();++i) a.push_back(json::Array{fn.ids[ph->getIncomingBlock(i)], fn.op(ph->getIncomingValue(i))}); o["a"]=std::move(a); o["n"]=ph->getName().str(); }
        else if(auto* cb = dyn_cast<CallBase>(&I)) {
          json::Array a; for(auto& x : cb->args()) a.push_back(fn.op(x)); o["a"]=std::move(a);
          const Value* cv = cb->getCalledOperand()->stripPointerCasts();
          if(auto* cf = dyn_cast<Function>(cv)) o["c"]=cf->getName().str(); else o["ci"]=fn.op(cv);
          if(auto* iv = dyn_cast<InvokeInst>(&I)) { o["nd"]=fn.ids[iv->getNormalDest()]; o["ud"]=fn.ids[iv->getUnwindDest()]; }
          if(cb->doesNotReturn()) o["nr"]=true;
        }
        else if(auto* c = dyn_cast<CmpInst>(&I)) { o["p"]=CmpInst::getPredicateName(c->getPredicate()).str(); o["a"]=json::Array{fn.op(c->getOperand(0)),fn.op(c->getOperand(1))}; o["ot"]=tstr(c->getOperand(0)->getType()); }
        else if(auto* br = dyn_cast<BranchInst>(&I)) { if(br->isConditional()) o["a"]=json::Array{fn.op(br->getCondition()), fn.ids[br->getSuccessor(0)], fn.ids[br->getSuccessor(1)]}; else o["a"]=json::Array{fn.ids[br->getSuccessor(0)]}; }
        else if(auto* sw = dyn_cast<SwitchInst>(&I)) { json::Array cs; for(auto& c : sw->cases()) cs.push_back(json::Array{fn.op(c.getCaseValue()), fn.ids[c.getCaseSuccessor()]}); o["a"]=json::Array{fn.op(sw->getCondition()), fn.ids[sw->getDefaultDest()], std::move(cs)}; }
        else if(auto* ld = dyn_cast<LoadInst>(&I)) { o["a"]=json::Array{fn.op(ld->getPointerOperand())}; o["sz"]=(int64_t)DL.getTypeStoreSize(ld->getType()); }
        else if(auto* st = dyn_cast<StoreInst>(&I)) { o["a"]=json::Array{fn.op(st->getValueOperand()), fn.op(st->getPointerOperand())}; o["sz"]=(int64_t)DL.getTypeStoreSize(st->getValueOperand()->getType()); o["vt"]=tstr(st->getValueOperand()->getType()); }
        else if(auto* ev = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for(unsigned i : ev->indices()) ix.push_back((int64_t)i); o["a"]=json::Array{fn.op(ev->getOperand(0))}; o["ix"]=std::move(ix); }
        else if(auto* iv = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for(unsigned i : iv->indices()) ix.push_back((int64_t)i); o["a"]=json::Array{fn.op(iv->getOperand(0)),fn.op(iv->getOperand(1))}; o["ix"]=std::move(ix); }
        else { json::Array a; for(auto& x : I.operands()) a.push_back(fn.op(x)); o["a"]=std::move(a);
          if(auto* ci = dyn_cast<CastInst>(&I)) o["st"]=tstr(ci->getSrcTy()); }
        insts.push_back(std::move(o));
      }
      blocks.push_back(std::move(insts));
    }
    fo["b"]=std::move(blocks);
    DominatorTree DT(F); LoopInfo LI(DT); json::Array loops;
    for(Loop* L : LI.getLoopsInPreorder()) {
      json::Array bl; for(auto* B : L->blocks()) bl.push_back((int64_t)fn.ids[B]);
      loops.push_back(json::Object{{"h",(int64_t)fn.ids[L->getHeader()]},{"b",std::move(bl)}});
    }
    fo["loops"]=std::move(loops);
    out << json::Value(std::move(fo)) << "\n";
  }
  }
  head["structs"]=std::move(structs); head["globals"]=std::move(globs); head["dtypes"]=std::move(dtypes);
  json::Array real; for(auto& d : decls) if(!seen_fn.count(d.getAsObject()->getString("n")->str())) real.push_back(std::move(d));
  head["decls"]=std::move(real);
  std::error_code ec; raw_fd_ostream f(argv[1], ec); if(ec) { errs() << ec.message(); return 2; }
  f << json::Value(std::move(head)) << "\n" << out.str();
  return 0;
}
