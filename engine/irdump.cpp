// irdump: dump a linked LLVM module (built from /repo's current sources) as JSON
// for the Python analyses.  No analysis happens here: it resolves struct fields
// (through debug info), callees, constants, the CFG and source positions.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
using namespace llvm;
static std::map<std::string, std::vector<std::pair<uint64_t,std::string>>> fieldsByName;
static const DataLayout *DL;
static void collect(Module &M) {
  DebugInfoFinder F; F.processModule(M);
  std::map<const DICompositeType*, std::string> tdName;
  for (auto *T : F.types())
    if (auto *D = dyn_cast<DIDerivedType>(T))
      if (D->getTag() == 0x16 && D->getBaseType())
        if (auto *C = dyn_cast<DICompositeType>(D->getBaseType()))
          if (C->getName().empty()) tdName[C] = D->getName().str();
  for (auto *T : F.types())
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() != 0x13) continue;
      std::string n = C->getName().str();
      if (n.empty()) { auto it = tdName.find(C); if (it == tdName.end()) continue; n = it->second; }
      std::vector<std::pair<uint64_t,std::string>> v;
      for (auto *E : C->getElements())
        if (auto *D = dyn_cast<DIDerivedType>(E))
          if (D->getTag() == 0x0d)
            v.push_back({D->getOffsetInBits()/8, D->getName().str()});
      if (!v.empty()) fieldsByName[n] = v;
    }
}
static std::string sname(StructType *ST) {
  std::string n = ST->hasName() ? ST->getName().str() : std::string("");
  if (n.rfind("struct.",0)==0) n = n.substr(7);
  if (n.rfind("union.",0)==0) n = n.substr(6);
  // linked duplicates get ".NN" suffixes
  size_t p = n.rfind('.');
  if (p != std::string::npos && p+1 < n.size() && n.find_first_not_of("0123456789", p+1) == std::string::npos) n = n.substr(0,p);
  return n;
}
static std::string fname(StructType *ST, unsigned idx) {
  std::string n = sname(ST);
  auto it = fieldsByName.find(n);
  if (it != fieldsByName.end() && ST->isSized()) {
    uint64_t off = DL->getStructLayout(ST)->getElementOffset(idx);
    for (auto &p : it->second) if (p.first == off) return p.second;
  }
  return "f" + std::to_string(idx);
}
static std::string tystr(Type *T) {
  if (auto *S = dyn_cast<StructType>(T)) return "struct " + sname(S);
  if (auto *A = dyn_cast<ArrayType>(T)) return "[" + std::to_string(A->getNumElements()) + "]" + tystr(A->getElementType());
  std::string s; raw_string_ostream o(s); T->print(o); return o.str();
}
struct FCtx { std::map<const Value*, int> id; };
static json::Value opv(const Value *V, FCtx &C);
static json::Array gepPath(const GEPOperator *G, FCtx &C) {
  json::Array path;
  Type *T = G->getSourceElementType();
  bool first = true;
  for (auto I = G->idx_begin(); I != G->idx_end(); ++I) {
    const Value *V = *I;
    if (first) {
      first = false;
      bool zero = isa<ConstantInt>(V) && cast<ConstantInt>(V)->isZero();
      if (!zero) path.push_back(json::Array{"idx", opv(V, C), tystr(T)});
      continue;
    }
    if (auto *ST = dyn_cast<StructType>(T)) {
      unsigned k = cast<ConstantInt>(V)->getZExtValue();
      path.push_back(json::Array{"fld", sname(ST), fname(ST, k)});
      T = ST->getElementType(k);
    } else if (auto *AT = dyn_cast<ArrayType>(T)) {
      path.push_back(json::Array{"arr", opv(V, C), (int64_t)AT->getNumElements()});
      T = AT->getElementType();
    } else { path.push_back(json::Array{"idx", opv(V, C), tystr(T)}); }
  }
  return path;
}
static json::Value opv(const Value *V, FCtx &C) {
  if (auto *CI = dyn_cast<ConstantInt>(V)) return json::Array{"c", CI->getBitWidth() <= 64 ? CI->getSExtValue() : 0, (int)CI->getBitWidth()};
  if (isa<ConstantPointerNull>(V)) return json::Array{"null"};
  if (isa<UndefValue>(V)) return json::Array{"undef"};
  if (auto *F = dyn_cast<Function>(V)) return json::Array{"f", F->getName().str()};
  if (auto *G = dyn_cast<GlobalVariable>(V)) {
    if (G->hasInitializer() && G->isConstant())
      if (auto *D = dyn_cast<ConstantDataSequential>(G->getInitializer()))
        if (D->isCString()) return json::Array{"s", G->getName().str(), json::fixUTF8(D->getAsCString())};
    if (G->hasInitializer() && G->isConstant() && G->getName().starts_with(".str") && isa<ConstantAggregateZero>(G->getInitializer()))
      return json::Array{"s", G->getName().str(), ""};
    return json::Array{"g", G->getName().str()};
  }
  if (auto *A = dyn_cast<Argument>(V)) return json::Array{"a", (int)A->getArgNo()};
  auto it = C.id.find(V);
  if (it != C.id.end()) return json::Array{"v", it->second};
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    if (auto *G = dyn_cast<GEPOperator>(CE)) return json::Array{"gep", opv(G->getPointerOperand(), C), gepPath(G, C)};
    if (CE->isCast()) return opv(CE->getOperand(0), C);
  }
  if (isa<ConstantFP>(V)) return json::Array{"fp"};
  return json::Array{"?"};
}
int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  collect(*M);
  json::Object root; json::Array funcs, globs; 
  for (auto &G : M->globals()) {
    json::Object o; o["name"] = G.getName().str(); o["type"] = tystr(G.getValueType());
    o["const"] = G.isConstant(); o["internal"] = G.hasLocalLinkage();
    SmallVector<DIGlobalVariableExpression*,2> dbg; G.getDebugInfo(dbg);
    if (!dbg.empty()) { o["src"] = dbg[0]->getVariable()->getName().str(); o["line"] = (int)dbg[0]->getVariable()->getLine(); o["file"] = dbg[0]->getVariable()->getFilename().str();
      if (auto *S = dyn_cast_or_null<DISubprogram>(dbg[0]->getVariable()->getScope())) o["fn"] = S->getName().str(); }
    if (G.hasInitializer()) {
      FCtx C; auto *I = G.getInitializer();
      if (auto *CA = dyn_cast<ConstantAggregate>(I)) { json::Array a; for (auto &u : CA->operands()) { 
          if (auto *CS = dyn_cast<ConstantAggregate>(u.get())) { json::Array b; for (auto &w : CS->operands()) b.push_back(opv(w.get(), C)); a.push_back(std::move(b)); }
          else if (isa<ConstantAggregateZero>(u.get())) a.push_back(json::Array{"zero"});
          else a.push_back(opv(u.get(), C)); } o["init"] = std::move(a); }
      else if (auto *CD = dyn_cast<ConstantDataSequential>(I)) { json::Array a; if (!CD->isString()) for (unsigned k=0;k<CD->getNumElements();++k) if (CD->getElementType()->isIntegerTy()) a.push_back((int64_t)CD->getElementAsInteger(k)); o["data"] = std::move(a); }
      else o["init1"] = opv(I, C);
    }
    globs.push_back(std::move(o));
  }
  for (auto &F : *M) {
    json::Object fo; fo["name"] = F.getName().str();
    fo["decl"] = F.isDeclaration(); fo["ret"] = tystr(F.getReturnType()); fo["vararg"] = F.isVarArg();
    fo["noreturn"] = F.doesNotReturn();
    if (F.isDeclaration()) { fo["nargs"] = (int)F.arg_size(); funcs.push_back(std::move(fo)); continue; }
    if (auto *S = F.getSubprogram()) { fo["file"] = S->getFilename().str(); fo["line"] = (int)S->getLine(); fo["src"] = S->getName().str(); }
    fo["internal"] = F.hasLocalLinkage();
    FCtx C; int n = 0;
    for (auto &B : F) for (auto &I : B) C.id[&I] = n++;
    std::map<const BasicBlock*, int> bid; int k = 0; for (auto &B : F) bid[&B] = k++;
    std::map<const Value*, std::string> vname;
    // variable names from dbg intrinsics
    for (auto &B : F) for (auto &I : B) {
      if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
        for (auto *v : D->location_ops()) if (v) { auto &s = vname[v]; std::string nm = D->getVariable()->getName().str(); if (s.empty()) s = nm; }
      }
    }
    json::Array args; for (auto &A : F.args()) { json::Object ao; auto it = vname.find(&A); ao["name"] = it == vname.end() ? std::string("") : it->second; ao["type"] = tystr(A.getType()); args.push_back(std::move(ao)); }
    fo["args"] = std::move(args);
    json::Array blocks;
    for (auto &B : F) {
      json::Object bo; bo["id"] = bid[&B];
      json::Array succ; for (auto *S : successors(&B)) succ.push_back(bid[S]); bo["succ"] = std::move(succ);
      json::Array insts;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        json::Object io; io["id"] = C.id[&I]; io["op"] = std::string(I.getOpcodeName());
        io["ty"] = tystr(I.getType());
        auto vn = vname.find(&I); if (vn != vname.end()) io["var"] = vn->second;
        if (auto &L = I.getDebugLoc()) { io["line"] = (int)L.getLine(); io["col"] = (int)L.getCol(); }
        json::Array ops;
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          const Value *cv = CB->getCalledOperand()->stripPointerCasts();
          io["callee"] = opv(cv, C);
          if (auto *cf = dyn_cast<Function>(cv)) io["fn"] = cf->getName().str();
          for (auto &A : CB->args()) ops.push_back(opv(A.get(), C));
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) ops.push_back(json::Array{opv(P->getIncomingValue(i), C), bid[P->getIncomingBlock(i)]});
        } else if (auto *G = dyn_cast<GEPOperator>(&I)) {
          ops.push_back(opv(G->getPointerOperand(), C)); io["path"] = gepPath(G, C); io["sty"] = tystr(G->getSourceElementType());
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
          ops.push_back(opv(S->getCondition(), C)); io["default"] = bid[S->getDefaultDest()];
          json::Array cs; for (auto &c : S->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]}); io["cases"] = std::move(cs);
        } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
          if (Br->isConditional()) { ops.push_back(opv(Br->getCondition(), C)); io["t"] = bid[Br->getSuccessor(0)]; io["f"] = bid[Br->getSuccessor(1)]; }
          else io["t"] = bid[Br->getSuccessor(0)];
        } else {
          for (auto &A : I.operands()) ops.push_back(opv(A.get(), C));
          if (auto *Cm = dyn_cast<CmpInst>(&I)) io["pred"] = std::string(CmpInst::getPredicateName(Cm->getPredicate()));
          if (auto *S = dyn_cast<StoreInst>(&I)) { io["sty"] = tystr(S->getValueOperand()->getType()); io["vol"] = S->isVolatile(); }
          if (auto *A = dyn_cast<AllocaInst>(&I)) io["sty"] = tystr(A->getAllocatedType());
          if (auto *O = dyn_cast<OverflowingBinaryOperator>(&I)) { if (O->hasNoSignedWrap()) io["pred"] = "nsw"; }
          if (isa<CastInst>(&I)) io["from"] = tystr(I.getOperand(0)->getType());
        }
        io["ops"] = std::move(ops);
        insts.push_back(std::move(io));
      }
      bo["insts"] = std::move(insts);
      blocks.push_back(std::move(bo));
    }
    fo["blocks"] = std::move(blocks);
    funcs.push_back(std::move(fo));
  }
  root["functions"] = std::move(funcs); root["globals"] = std::move(globs);
  json::Object fl; for (auto &p : fieldsByName) { json::Array a; for (auto &q : p.second) a.push_back(json::Array{(int64_t)q.first, q.second}); fl[p.first] = std::move(a); }
  root["structs"] = std::move(fl);
  outs() << json::Value(std::move(root)) << "\n";
}
