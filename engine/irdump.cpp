// irdump: LLVM bitcode -> JSON for the Python analyser.  Static only; nothing is executed.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
using namespace llvm;
using json::Object; using json::Array;

static const DataLayout *DL;
static std::map<const llvm::Value*, int> ids;   // per function

static std::string i2s(const APInt &v) { SmallString<40> s; v.toStringSigned(s); return std::string(s.str()); }

// may memory reached through v be written somewhere in the program?
static bool written(const llvm::Value *v, std::set<const llvm::Value*> &seen) {
  if (!seen.insert(v).second) return false;
  for (const User *u : v->users()) {
    if (auto *x=dyn_cast<StoreInst>(u)) { if (x->getPointerOperand()==v) return true; }
    else if (isa<GEPOperator>(u)||isa<BitCastOperator>(u)||isa<PHINode>(u)||isa<SelectInst>(u)||isa<FreezeInst>(u)) { if (written(u,seen)) return true; }
    else if (isa<AtomicRMWInst>(u)||isa<AtomicCmpXchgInst>(u)) return true;
    else if (auto *x=dyn_cast<CallBase>(u)) {
      if (isa<DbgInfoIntrinsic>(x)) continue;
      if (auto *mi=dyn_cast<AnyMemIntrinsic>(x)) { if (mi->getRawDest()==v) return true; continue; }
      auto *F=dyn_cast<Function>(x->getCalledOperand()->stripPointerCasts());
      for (unsigned i=0;i<x->arg_size();++i) if (x->getArgOperand(i)==v && !x->isByValArgument(i)) {
        if (!F||F->isDeclaration()||i>=F->arg_size()) return true;
        if (written(F->getArg(i),seen)) return true; } }
  }
  return false;
}
static json::Value operand(const llvm::Value *v) {
  if (auto *c = dyn_cast<ConstantInt>(v)) return Object{{"k","i"},{"v",i2s(c->getValue())},{"b",(int64_t)c->getBitWidth()}};
  if (isa<ConstantPointerNull>(v)) return Object{{"k","n"}};
  if (isa<UndefValue>(v)) return Object{{"k","u"}};
  if (auto *a = dyn_cast<Argument>(v)) return Object{{"k","a"},{"i",(int64_t)a->getArgNo()}};
  if (auto *f = dyn_cast<Function>(v)) return Object{{"k","f"},{"n",f->getName().str()}};
  if (auto *g = dyn_cast<GlobalVariable>(v)) return Object{{"k","g"},{"n",g->getName().str()}};
  if (auto *ga = dyn_cast<GlobalAlias>(v)) return operand(ga->getAliasee());
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    if (ce->getOpcode()==Instruction::GetElementPtr) {
      auto *go = cast<GEPOperator>(ce);
      APInt off(DL->getIndexTypeSizeInBits(ce->getType()),0);
      if (go->accumulateConstantOffset(*DL, off))
        return Object{{"k","gep"},{"base",operand(go->getPointerOperand())},{"off",off.getSExtValue()}};
    }
    if (ce->isCast()) return operand(ce->getOperand(0));
    return Object{{"k","ce"}};
  }
  if (isa<Instruction>(v)) return Object{{"k","v"},{"id",(int64_t)ids[v]}};
  if (isa<ConstantAggregateZero>(v)) return Object{{"k","zero"}};
  return Object{{"k","x"}};
}

static std::string tyname(Type *t) {
  if (t->isIntegerTy()) return "i"+std::to_string(t->getIntegerBitWidth());
  if (t->isPointerTy()) return "p";
  if (t->isVoidTy()) return "v";
  if (t->isStructTy() || t->isArrayTy()) return "agg";
  return "x";
}

static Array gepPath(GEPOperator *g) {
  Array path;
  for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
    if (StructType *st = gti.getStructTypeOrNull()) {
      unsigned f = cast<ConstantInt>(gti.getOperand())->getZExtValue();
      path.push_back(Array{ st->hasName()? st->getName().str() : std::string(""), (int64_t)f,
        (int64_t)DL->getStructLayout(st)->getElementOffset(f)});
    }
  }
  return path;
}

static void flatten(const Constant *c, uint64_t off, Array &out) {
  Type *t = c->getType();
  if (isa<ConstantInt>(c) || t->isPointerTy()) {
    out.push_back(Array{(int64_t)off, (int64_t)DL->getTypeStoreSize(t).getFixedValue(), operand(c)});
    return;
  }
  if (auto *st = dyn_cast<StructType>(t)) {
    for (unsigned i=0;i<st->getNumElements();++i) { if (Constant *e=c->getAggregateElement(i)) flatten(e, off+DL->getStructLayout(st)->getElementOffset(i), out);} return; }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    if (at->getNumElements() > 512) return;
    for (unsigned i=0;i<at->getNumElements();++i) if (Constant *e=c->getAggregateElement(i)) flatten(e, off+i*DL->getTypeAllocSize(at->getElementType()).getFixedValue(), out); }
}

static std::string diKind(const DIType *t, std::string &sname) {
  while (t) {
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
      if (d->getTag()==dwarf::DW_TAG_pointer_type) {
        const DIType *b = d->getBaseType();
        while (b && isa<DIDerivedType>(b) && (b->getTag()==dwarf::DW_TAG_typedef||b->getTag()==dwarf::DW_TAG_const_type)) { if (sname.empty() && b->getTag()==dwarf::DW_TAG_typedef) sname=b->getName().str(); b = cast<DIDerivedType>(b)->getBaseType(); }
        if (b && isa<DICompositeType>(b) && !b->getName().empty()) sname=b->getName().str();
        if (b && isa<DISubroutineType>(b)) return "fptr";
        return "ptr";
      }
      if (d->getTag()==dwarf::DW_TAG_typedef && sname.empty()) sname = d->getName().str();
      t = d->getBaseType(); continue; }
    if (auto *c = dyn_cast<DICompositeType>(t)) {
      if (!c->getName().empty()) sname = c->getName().str();
      if (c->getTag()==dwarf::DW_TAG_structure_type) return "struct";
      if (c->getTag()==dwarf::DW_TAG_union_type) return "union";
      if (c->getTag()==dwarf::DW_TAG_array_type) return "array";
      return "u"; }
    if (auto *b = dyn_cast<DIBasicType>(t)) {
      auto e=b->getEncoding();
      return (e==dwarf::DW_ATE_signed||e==dwarf::DW_ATE_signed_char)?"s":"u"; }
    return "?"; }
  return "void";
}

int main(int argc, char**argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  Object root; Object funcs;
  for (Function &F : *M) {
    Object fo;
    Array args;
    for (auto &a : F.args()) args.push_back(Object{{"name",a.getName().str()},{"ty",tyname(a.getType())},
        {"byval", a.hasByValAttr()? (int64_t)DL->getTypeAllocSize(a.getParamByValType()).getFixedValue():0},
        {"sret", a.hasStructRetAttr()}});
    fo["args"]=std::move(args); fo["ret"]=tyname(F.getReturnType()); fo["decl"]=F.isDeclaration();
    fo["internal"]=F.hasLocalLinkage();
    if (auto *sp=F.getSubprogram()) { fo["file"]=sp->getFilename().str(); fo["line"]=(int64_t)sp->getLine();
      Array kinds; if (sp->getType()) for (auto *t : sp->getType()->getTypeArray()) { std::string sn; std::string k=diKind(t,sn); kinds.push_back(Array{k,sn}); }
      fo["ditypes"]=std::move(kinds); }
    if (!F.isDeclaration()) {
      ids.clear(); int n=0; std::map<const BasicBlock*,int> bid; int bn=0;
      for (auto &B:F) { bid[&B]=bn++; for (auto &I:B) ids[&I]=n++; }
      DominatorTree DT(F); LoopInfo LI(DT);
      Array blocks;
      for (auto &B:F) {
        Array insts;
        for (auto &I:B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          Object o; o["id"]=(int64_t)ids[&I]; o["ty"]=tyname(I.getType());
          if (auto &dl=I.getDebugLoc()) {
            o["line"]=(int64_t)dl.getLine(); o["col"]=(int64_t)dl.getCol();
            if (auto *sc=dyn_cast_or_null<DIScope>(dl.getScope())) o["file"]=sc->getFilename().str(); }
          if (auto *x=dyn_cast<AllocaInst>(&I)) { o["op"]="alloca"; o["name"]=I.getName().str();
            o["size"]=(int64_t)DL->getTypeAllocSize(x->getAllocatedType()).getFixedValue(); o["n"]=operand(x->getArraySize());
            o["aty"]= x->getAllocatedType()->isStructTy()? cast<StructType>(x->getAllocatedType())->hasName()?cast<StructType>(x->getAllocatedType())->getName().str():std::string(""):std::string(""); }
          else if (auto *x=dyn_cast<LoadInst>(&I)) { o["op"]="load"; o["p"]=operand(x->getPointerOperand()); o["size"]=(int64_t)DL->getTypeStoreSize(I.getType()).getFixedValue(); }
          else if (auto *x=dyn_cast<StoreInst>(&I)) { o["op"]="store"; o["p"]=operand(x->getPointerOperand()); o["v"]=operand(x->getValueOperand());
             o["vt"]=tyname(x->getValueOperand()->getType()); o["size"]=(int64_t)DL->getTypeStoreSize(x->getValueOperand()->getType()).getFixedValue(); }
          else if (auto *x=dyn_cast<GetElementPtrInst>(&I)) { o["op"]="gep"; o["base"]=operand(x->getPointerOperand());
            APInt c(64,0); MapVector<llvm::Value*,APInt> vo; 
            if (cast<GEPOperator>(x)->collectOffset(*DL,64,vo,c)) { o["off"]=c.getSExtValue(); Array ix; for (auto &kv:vo) ix.push_back(Array{operand(kv.first), kv.second.getSExtValue()}); o["idx"]=std::move(ix);} 
            else o["bad"]=true;
            o["path"]=gepPath(cast<GEPOperator>(x)); 
            Type *st=x->getSourceElementType(); if (st->isStructTy()&&cast<StructType>(st)->hasName()) o["src"]=cast<StructType>(st)->getName().str(); }
          else if (auto *x=dyn_cast<ICmpInst>(&I)) { o["op"]="icmp"; o["pred"]=CmpInst::getPredicateName(x->getPredicate()).str(); o["a"]=operand(x->getOperand(0)); o["b"]=operand(x->getOperand(1)); o["oty"]=tyname(x->getOperand(0)->getType()); }
          else if (auto *x=dyn_cast<BinaryOperator>(&I)) { o["op"]="bin"; o["bop"]=x->getOpcodeName(); o["a"]=operand(x->getOperand(0)); o["b"]=operand(x->getOperand(1));
            bool nsw=false,nuw=false; if (auto *ob=dyn_cast<OverflowingBinaryOperator>(x)) { nsw=ob->hasNoSignedWrap(); nuw=ob->hasNoUnsignedWrap(); } o["nsw"]=nsw; o["nuw"]=nuw; }
          else if (auto *x=dyn_cast<CastInst>(&I)) { o["op"]="cast"; o["cop"]=x->getOpcodeName(); o["a"]=operand(x->getOperand(0)); o["aty"]=tyname(x->getOperand(0)->getType()); }
          else if (auto *x=dyn_cast<BranchInst>(&I)) { o["op"]="br"; if (x->isConditional()) { o["c"]=operand(x->getCondition()); o["t"]=bid[x->getSuccessor(0)]; o["f"]=bid[x->getSuccessor(1)]; } else o["t"]=bid[x->getSuccessor(0)]; }
          else if (auto *x=dyn_cast<SwitchInst>(&I)) { o["op"]="switch"; o["a"]=operand(x->getCondition()); o["d"]=bid[x->getDefaultDest()]; Array cs; for (auto &c:x->cases()) cs.push_back(Array{operand(c.getCaseValue()), bid[c.getCaseSuccessor()]}); o["cases"]=std::move(cs); o["oty"]=tyname(x->getCondition()->getType()); }
          else if (auto *x=dyn_cast<PHINode>(&I)) { o["op"]="phi"; o["name"]=I.getName().str(); Array in; for (unsigned i=0;i<x->getNumIncomingValues();++i) in.push_back(Array{operand(x->getIncomingValue(i)), bid[x->getIncomingBlock(i)]}); o["in"]=std::move(in); }
          else if (auto *x=dyn_cast<SelectInst>(&I)) { o["op"]="select"; o["c"]=operand(x->getCondition()); o["a"]=operand(x->getTrueValue()); o["b"]=operand(x->getFalseValue()); }
          else if (auto *x=dyn_cast<CallBase>(&I)) { o["op"]="call"; 
            const llvm::Value *cal=x->getCalledOperand()->stripPointerCasts(); o["callee"]=operand(cal);
            Array as; Array at; for (auto &a:x->args()) { as.push_back(operand(a.get())); at.push_back(tyname(a->getType())); } o["args"]=std::move(as); o["aty"]=std::move(at);
            Array bv; for (unsigned i=0;i<x->arg_size();++i) bv.push_back(x->isByValArgument(i)?(int64_t)DL->getTypeAllocSize(x->getParamByValType(i)).getFixedValue():0); o["byval"]=std::move(bv); }
          else if (auto *x=dyn_cast<ReturnInst>(&I)) { o["op"]="ret"; if (x->getReturnValue()) o["v"]=operand(x->getReturnValue()); }
          else if (isa<UnreachableInst>(&I)) o["op"]="unreachable";
          else if (auto *x=dyn_cast<ExtractValueInst>(&I)) { o["op"]="extractvalue"; o["a"]=operand(x->getAggregateOperand()); Array ix; for (auto i:x->indices()) ix.push_back((int64_t)i); o["ix"]=std::move(ix); }
          else if (auto *x=dyn_cast<InsertValueInst>(&I)) { o["op"]="insertvalue"; o["a"]=operand(x->getAggregateOperand()); o["b"]=operand(x->getInsertedValueOperand()); Array ix; for (auto i:x->indices()) ix.push_back((int64_t)i); o["ix"]=std::move(ix); }
          else if (isa<FreezeInst>(&I)) { o["op"]="copy"; o["a"]=operand(I.getOperand(0)); }
          else { o["op"]="other"; o["name"]=I.getOpcodeName(); }
          insts.push_back(std::move(o));
        }
        blocks.push_back(std::move(insts));
      }
      fo["blocks"]=std::move(blocks);
      Array loops;
      for (Loop *L : LI.getLoopsInPreorder()) {
        Array bl; for (auto *b:L->blocks()) bl.push_back(bid[b]);
        loops.push_back(Object{{"header",bid[L->getHeader()]},{"blocks",std::move(bl)}}); }
      fo["loops"]=std::move(loops);
    }
    funcs[F.getName().str()]=std::move(fo);
  }
  root["functions"]=std::move(funcs);
  Object globals;
  for (auto &G : M->globals()) {
    Object g; g["const"]=G.isConstant(); { std::set<const llvm::Value*> seen; g["written"]=!G.isConstant()&&written(&G,seen); } g["internal"]=G.hasLocalLinkage(); g["size"]= G.getValueType()->isSized()? (int64_t)DL->getTypeAllocSize(G.getValueType()).getFixedValue():0;
    Array in; if (G.hasInitializer()) { 
       if (auto *ca=dyn_cast<ConstantDataArray>(G.getInitializer())) { if (ca->isString()) { std::string s=ca->getAsString().str(); for(char&c:s) if((unsigned char)c>=0x80) c='?'; if(!s.empty()&&s.back()==0) s.pop_back(); g["str"]=s; } }
       else flatten(G.getInitializer(),0,in); }
    g["init"]=std::move(in); globals[G.getName().str()]=std::move(g);
  }
  root["globals"]=std::move(globals);
  // debug-info structs
  DebugInfoFinder DF; DF.processModule(*M);
  Object structs;
  std::map<const DIType*, std::string> tdname;
  for (auto *t : DF.types()) if (auto *d=dyn_cast<DIDerivedType>(t)) if (d->getTag()==dwarf::DW_TAG_typedef && d->getBaseType()) if (d->getBaseType()->getName().empty()) tdname[d->getBaseType()]=d->getName().str();
  for (auto *t : DF.types()) if (auto *c=dyn_cast<DICompositeType>(t)) if (c->getTag()==dwarf::DW_TAG_structure_type||c->getTag()==dwarf::DW_TAG_union_type) {
    std::string nm=c->getName().str(); if (nm.empty()) nm=tdname[c]; if (nm.empty()) continue;
    Array mem;
    for (auto *e : c->getElements()) if (auto *m=dyn_cast<DIDerivedType>(e)) { if (m->getTag()!=dwarf::DW_TAG_member) continue; std::string sn; std::string k=diKind(m->getBaseType(),sn);
      mem.push_back(Object{{"name",m->getName().str()},{"off",(int64_t)(m->getOffsetInBits()/8)},{"size",(int64_t)(m->getBaseType()?m->getSizeInBits()/8:0)},{"kind",k},{"sname",sn}}); }
    if (mem.empty()) continue;
    structs[nm]=Object{{"size",(int64_t)(c->getSizeInBits()/8)},{"members",std::move(mem)}};
  }
  root["structs"]=std::move(structs);
  outs() << json::Value(std::move(root)) << "\n";
  return 0;
}
