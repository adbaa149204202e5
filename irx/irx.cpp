// irx: link bitcode modules, inline every defined callee bottom-up, clean up, group the chosen
// root functions by structure and print them as JSON for the rule engine (vlib/ir.py).
//
//   irx OUT.json ROOTREGEX SHARD/NSHARDS FILE.bc...
//
// Nothing is executed; the transformations used are the ones that keep every event (call, store,
// load from memory) of the source: SROA, early CSE, SCCP, instsimplify, dead code elimination,
// constant branch folding, unreachable block removal and straight-line block merging.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Regex.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Support/MD5.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include <map>
#include <set>
#include <vector>
#include <string>
#include <functional>
using namespace llvm;

static const char *NoRet[] = {"MPI_Abort", "abort", "exit", "_exit", "__assert_fail"};
static FunctionAnalysisManager *FAM;
static FunctionPassManager *FPM;

static void cfgClean(Function &F) {
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto &B : F) ch |= ConstantFoldTerminator(&B, true);
    ch |= removeUnreachableBlocks(F);
    for (auto it = F.begin(); it != F.end();) {
      BasicBlock *B = &*it++;
      ch |= MergeBlockIntoPredecessor(B);
    }
  }
}
static void simplify(Function &F, int n = 1) {
  for (int i = 0; i < n; i++) {
    FAM->invalidate(F, PreservedAnalyses::none());
    FPM->run(F, *FAM);
    cfgClean(F);
  }
  FAM->invalidate(F, PreservedAnalyses::none());
}
static bool isNoRet(const Function *F) {
  for (auto n : NoRet) if (F->getName() == n) return true;
  return false;
}
static void cutNoRet(Function &F) {
  std::vector<Instruction *> v;
  for (auto &I : instructions(F))
    if (auto *CB = dyn_cast<CallBase>(&I))
      if (auto *C = CB->getCalledFunction()) if (isNoRet(C)) v.push_back(&I);
  for (auto *I : v) if (!isa<UnreachableInst>(I->getNextNode())) changeToUnreachable(I->getNextNode());
  removeUnreachableBlocks(F);
}

// ---------------------------------------------------------------- debug-info struct layouts
static std::map<std::string, const DICompositeType *> Comp;
static void collectDI(Module &M) {
  DebugInfoFinder DF; DF.processModule(M);
  for (auto *T : DF.types()) {
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getName().size() && !C->isForwardDecl()) Comp[C->getName().str()] = C;
    } else if (auto *D = dyn_cast<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_typedef)
        if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
          if (!C->isForwardDecl() && !Comp.count(D->getName().str())) Comp[D->getName().str()] = C;
    }
  }
}
static std::string structName(StructType *S) {
  if (!S->hasName()) return "";
  StringRef n = S->getName();
  n.consume_front("struct."); n.consume_front("union.");
  size_t d = n.rfind('.');
  if (d != StringRef::npos && d + 1 < n.size() && n.substr(d + 1).find_first_not_of("0123456789") == StringRef::npos) {
    StringRef m = n.substr(0, d);
    if (m != "anon") n = m;
  }
  return n.str();
}
static const DIType *strip(const DIType *T) {
  while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
    auto t = D->getTag();
    if (t == dwarf::DW_TAG_typedef || t == dwarf::DW_TAG_const_type || t == dwarf::DW_TAG_volatile_type || t == dwarf::DW_TAG_member) T = D->getBaseType();
    else break;
  }
  return T;
}
static std::string diName(const DIType *T) {
  // typedef name of an anonymous struct, or its tag
  if (!T) return "";
  if (T->getName().size()) return T->getName().str();
  return "";
}
static std::string esc(StringRef s) {
  std::string r;
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)c); r += b; } else r += c; }
  return r;
}
static const DataLayout *DL;

static const DIType *globalType(const GlobalVariable *G) {
  SmallVector<DIGlobalVariableExpression *, 1> v;
  G->getDebugInfo(v);
  for (auto *e : v) return e->getVariable()->getType();
  return nullptr;
}

// ---------------------------------------------------------------- debug-info type table
static std::map<const DIType *, int> Tid; static std::vector<std::string> Tout;
static int typeId(const DIType *T) {
  while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
    auto t = D->getTag();
    if (t == dwarf::DW_TAG_typedef) {
      auto *b = D->getBaseType();
      if (auto *C = dyn_cast_or_null<DICompositeType>(b)) if (C->getName().empty()) {
        // typedef of an anonymous composite: name it after the typedef
        extern int compositeId(const DICompositeType *, std::string);
        return compositeId(C, D->getName().str());
      }
      T = b;
    } else if (t == dwarf::DW_TAG_const_type || t == dwarf::DW_TAG_volatile_type || t == dwarf::DW_TAG_member || t == dwarf::DW_TAG_restrict_type) T = D->getBaseType();
    else break;
  }
  extern int compositeId(const DICompositeType *, std::string);
  if (!T) return -1;
  if (auto *C = dyn_cast<DICompositeType>(T)) return compositeId(C, C->getName().str());
  auto it = Tid.find(T);
  if (it != Tid.end()) return it->second;
  int id = Tout.size(); Tid[T] = id; Tout.push_back("");
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    int b = typeId(D->getBaseType());
    Tout[id] = "{\"k\":\"ptr\",\"sz\":8,\"of\":" + std::to_string(b) + "}";
  } else if (isa<DISubroutineType>(T)) Tout[id] = "{\"k\":\"fn\",\"sz\":0}";
  else Tout[id] = "{\"k\":\"base\",\"n\":\"" + T->getName().str() + "\",\"sz\":" + std::to_string(T->getSizeInBits() / 8) + "}";
  return id;
}
int compositeId(const DICompositeType *C, std::string name) {
  if (C->isForwardDecl()) { auto it = Comp.find(C->getName().str()); if (it != Comp.end()) C = it->second; }
  auto it = Tid.find(C);
  if (it != Tid.end()) return it->second;
  int id = Tout.size(); Tid[C] = id; Tout.push_back("");
  std::string r;
  auto sz = std::to_string(C->getSizeInBits() / 8);
  if (C->getTag() == dwarf::DW_TAG_array_type) {
    int b = typeId(C->getBaseType()); uint64_t n = 0;
    for (auto *E : C->getElements()) if (auto *SR = dyn_cast<DISubrange>(E)) if (auto *CI = dyn_cast_if_present<ConstantInt *>(SR->getCount())) n = CI->getZExtValue();
    r = "{\"k\":\"arr\",\"sz\":" + sz + ",\"of\":" + std::to_string(b) + ",\"n\":" + std::to_string(n) + "}";
  } else if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
    r = "{\"k\":\"enum\",\"n\":\"" + name + "\",\"sz\":" + sz + "}";
  } else {
    r = std::string("{\"k\":\"") + (C->getTag() == dwarf::DW_TAG_union_type ? "union" : "struct") + "\",\"n\":\"" + name + "\",\"sz\":" + sz + ",\"m\":[";
    bool f = true;
    for (auto *E : C->getElements()) if (auto *D = dyn_cast_or_null<DIDerivedType>(E)) if (D->getTag() == dwarf::DW_TAG_member) {
      int b = typeId(D->getBaseType());
      if (!f) r += ","; f = false;
      r += "[\"" + D->getName().str() + "\"," + std::to_string(D->getOffsetInBits() / 8) + "," + std::to_string(b) + "]";
    }
    r += "]}";
  }
  Tout[id] = r;
  return id;
}
static int compByName(const std::string &n) {
  auto it = Comp.find(n);
  if (it == Comp.end()) return -1;
  return compositeId(it->second, it->second->getName().size() ? it->second->getName().str() : n);
}

struct Out { std::string body; std::vector<std::string> holes; };
struct Dumper {
  Function &F; std::map<const Value *, int> id; std::map<const BasicBlock *, int> bid; Out out;
  std::map<const DILocation *, int> loc; std::vector<std::string> locs;
  std::string locstr; // not part of the structure
  std::vector<int> instLoc; std::map<int, std::string> var; // local variable names (display only)
  Dumper(Function &f) : F(f) {}
  static bool skip(const Instruction &I) {
    if (isa<DbgInfoIntrinsic>(I)) return true;
    if (auto *II = dyn_cast<IntrinsicInst>(&I)) return II->isLifetimeStartOrEnd() || II->getIntrinsicID() == Intrinsic::assume;
    return false;
  }
  std::string hole(const std::string &v) { out.holes.push_back(v); return "\"h" + std::to_string(out.holes.size() - 1) + "\""; }
  std::string constant(const Constant *C) {
    if (auto *I = dyn_cast<ConstantInt>(C)) {
      SmallString<32> s; I->getValue().toStringSigned(s);
      return hole("i" + std::to_string(I->getBitWidth()) + ":" + s.str().str());
    }
    if (auto *Fp = dyn_cast<ConstantFP>(C)) { SmallString<32> s; Fp->getValueAPF().toString(s); return hole("f:" + s.str().str()); }
    if (isa<ConstantPointerNull>(C)) return "\"null\"";
    if (isa<UndefValue>(C)) return "\"undef\"";
    if (auto *Fn = dyn_cast<Function>(C)) return "\"@" + esc(Fn->getName()) + "\"";
    if (auto *G = dyn_cast<GlobalVariable>(C)) {
      if (G->hasInitializer() && G->isConstant()) {
        if (auto *S = dyn_cast<ConstantDataSequential>(G->getInitializer())) if (S->isString()) {
          StringRef t = S->isCString() ? S->getAsCString() : S->getAsString();
          return hole("s:" + t.str());
        }
      }
      if (G->isDeclaration() && G->getName().starts_with("ompi_")) return hole("g:" + G->getName().str());
      return "\"g:" + esc(G->getName()) + "+0\"";
    }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      if (CE->getOpcode() == Instruction::GetElementPtr) {
        APInt off(64, 0);
        const Value *b = CE->stripAndAccumulateConstantOffsets(*DL, off, true);
        if (auto *G = dyn_cast<GlobalVariable>(b)) {
          if (G->isConstant() && G->hasInitializer() && isa<ConstantDataSequential>(G->getInitializer()) && cast<ConstantDataSequential>(G->getInitializer())->isString())
            return "\"s:?\"";
          return "\"g:" + esc(G->getName()) + "+" + std::to_string(off.getZExtValue()) + "\"";
        }
      }
      if (CE->getOpcode() == Instruction::IntToPtr)
        return constant(cast<Constant>(CE->getOperand(0)));
      if (CE->getOpcode() == Instruction::PtrToInt)
        return constant(cast<Constant>(CE->getOperand(0)));
      std::string s; raw_string_ostream o(s); CE->print(o);
      return "\"c:" + esc(o.str()) + "\"";
    }
    std::string s; raw_string_ostream o(s); C->print(o);
    return "\"c:" + esc(o.str()) + "\"";
  }
  std::string ref(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return constant(C);
    if (auto *A = dyn_cast<Argument>(V)) return "\"a" + std::to_string(A->getArgNo()) + "\"";
    if (auto *B = dyn_cast<BasicBlock>(V)) return "\"b" + std::to_string(bid[B]) + "\"";
    if (isa<MetadataAsValue>(V)) return "\"md\"";
    if (isa<InlineAsm>(V)) return "\"asm\"";
    auto it = id.find(V);
    if (it == id.end()) return "\"?\"";
    return "\"%" + std::to_string(it->second) + "\"";
  }
  int getLoc(const DILocation *L) {
    if (!L) return -1;
    auto it = loc.find(L);
    if (it != loc.end()) return it->second;
    int up = getLoc(L->getInlinedAt());
    std::string fn = L->getFilename().str();
    std::string s = "[\"" + esc(fn) + "\"," + std::to_string(L->getLine()) + ",\"" + esc(L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName() : "") + "\"," + std::to_string(up) + "]";
    locs.push_back(s);
    return loc[L] = (int)locs.size() - 1;
  }
  static std::string tyname(Type *T) { std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str(); }
  void run() {
    int n = 0, b = 0;
    for (auto &B : F) { bid[&B] = b++; for (auto &I : B) { if (skip(I)) continue; id[&I] = n++; } }
    std::string &s = out.body;
    s += "{\"args\":[";
    for (auto &A : F.args()) { if (A.getArgNo()) s += ","; s += "\"" + tyname(A.getType()) + "\""; }
    s += "],\"ret\":\"" + tyname(F.getReturnType()) + "\",\"blocks\":[";
    bool fb = true;
    for (auto &B : F) {
      if (!fb) s += ","; fb = false;
      s += "\n[";
      bool fi = true;
      for (auto &I : B) {
        if (skip(I)) continue;
        if (!fi) s += ","; fi = false;
        s += "\n[" + std::to_string(id[&I]) + ",\"" + (isa<CallBase>(I) ? "call" : I.getOpcodeName()) + "\",\"" + esc(tyname(I.getType())) + "\",[";
        bool fo = true;
        auto add = [&](const std::string &x) { if (!fo) s += ","; fo = false; s += x; };
        std::string extra;
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          add(ref(G->getPointerOperand()));
          // constant byte offset, variable indices with their strides, and the type walked
          APInt coff(64, 0); MapVector<Value *, APInt> var;
          cast<GEPOperator>(G)->collectOffset(*DL, 64, var, coff);
          SmallString<16> cs; coff.toStringSigned(cs);
          extra = ",\"off\":" + cs.str().str() + ",\"var\":[";
          bool fv = true;
          for (auto &kv : var) { if (!fv) extra += ","; fv = false; SmallString<16> st2; kv.second.toStringSigned(st2); extra += "[" + ref(kv.first) + "," + st2.str().str() + "]"; }
          std::string sn; if (auto *S = dyn_cast<StructType>(G->getSourceElementType())) sn = structName(S);
          extra += "],\"src\":\"" + esc(sn.empty() ? tyname(G->getSourceElementType()) : sn) + "\"";
          if (!sn.empty()) extra += ",\"st\":" + std::to_string(compByName(sn));
        } else if (auto *CB = dyn_cast<CallBase>(&I)) {
          for (auto &A : CB->args()) add(ref(A.get()));
          extra = ",\"fn\":" + ref(CB->getCalledOperand());
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          for (unsigned k = 0; k < P->getNumIncomingValues(); k++) {
            add(ref(P->getIncomingValue(k)));
          }
          extra = ",\"from\":[";
          for (unsigned k = 0; k < P->getNumIncomingValues(); k++) extra += (k ? "," : "") + std::to_string(bid[P->getIncomingBlock(k)]);
          extra += "]";
        } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
          if (Br->isConditional()) add(ref(Br->getCondition()));
          extra = ",\"to\":[";
          for (unsigned k = 0; k < Br->getNumSuccessors(); k++) extra += (k ? "," : "") + std::to_string(bid[Br->getSuccessor(k)]);
          extra += "]";
        } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
          add(ref(Sw->getCondition()));
          extra = ",\"def\":" + std::to_string(bid[Sw->getDefaultDest()]) + ",\"cases\":[";
          bool fc = true;
          for (auto &c : Sw->cases()) { if (!fc) extra += ","; fc = false; SmallString<32> v; c.getCaseValue()->getValue().toStringSigned(v); extra += "[" + v.str().str() + "," + std::to_string(bid[c.getCaseSuccessor()]) + "]"; }
          extra += "]";
        } else {
          for (auto &O : I.operands()) add(ref(O.get()));
          if (auto *C = dyn_cast<CmpInst>(&I)) extra = std::string(",\"pred\":\"") + CmpInst::getPredicateName(C->getPredicate()).str() + "\"";
          if (auto *A = dyn_cast<AllocaInst>(&I)) {
            extra = ",\"aty\":\"" + esc(tyname(A->getAllocatedType())) + "\",\"asz\":" + std::to_string(DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue());
            int ti = -1;
            for (auto *DD : findDbgDeclares(const_cast<AllocaInst *>(A))) { ti = typeId(DD->getVariable()->getType()); break; }
            if (ti < 0) if (auto *S = dyn_cast<StructType>(A->getAllocatedType())) ti = compByName(structName(S));
            extra += ",\"dt\":" + std::to_string(ti);
            for (auto *DD : findDbgDeclares(const_cast<AllocaInst *>(A))) { var[id[A]] = DD->getVariable()->getName().str(); break; }
          }
          if (auto *L = dyn_cast<LoadInst>(&I)) if (L->isVolatile()) extra += ",\"vol\":1";
          if (auto *X = dyn_cast<ExtractValueInst>(&I)) { extra += ",\"xidx\":["; for (unsigned k = 0; k < X->getNumIndices(); k++) extra += (k ? "," : "") + std::to_string(X->getIndices()[k]); extra += "]"; }
        }
        s += "],{" + (extra.empty() ? extra : extra.substr(1)) + "}]";
        instLoc.push_back(getLoc(I.getDebugLoc().get()));
      }
      s += "]";
    }
    s += "]}";
    locstr = "[";
    for (size_t i = 0; i < locs.size(); i++) locstr += (i ? "," : "") + locs[i];
    locstr += "]";
  }
};

int main(int argc, char **argv) {
  if (argc < 5) { errs() << "usage\n"; return 2; }
  LLVMContext C; SMDiagnostic E;
  std::unique_ptr<Module> M;
  for (int i = 4; i < argc; i++) {
    auto m = parseIRFile(argv[i], E, C);
    if (!m) { E.print("irx", errs()); return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed " << argv[i] << "\n"; return 2; }
  }
  DL = &M->getDataLayout();
  collectDI(*M);
  { DebugInfoFinder DF; DF.processModule(*M); for (auto *T : DF.types()) typeId(T); } // same ids in every shard
  LoopAnalysisManager LAM; FunctionAnalysisManager fam; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(fam); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, fam, CGAM, MAM);
  FunctionPassManager fpm;
  fpm.addPass(SROAPass(SROAOptions::PreserveCFG)); fpm.addPass(EarlyCSEPass()); fpm.addPass(SCCPPass());
  fpm.addPass(InstSimplifyPass()); fpm.addPass(ADCEPass());
  FAM = &fam; FPM = &fpm;

  Regex R(argv[2]);
  // which functions are reachable from the roots
  std::vector<Function *> roots;
  for (auto &F : *M) if (!F.isDeclaration() && !F.hasAvailableExternallyLinkage() && R.match(F.getName())) roots.push_back(&F);
  unsigned shard = atoi(argv[3]), nsh = atoi(strchr(argv[3], '/') + 1);
  { // this process handles every NSHARDS-th root; the driver merges the classes
    std::vector<Function *> r2; size_t k = 0;
    for (auto *F : roots) if (k++ % nsh == shard) r2.push_back(F);
    roots = r2;
  }
  // functions whose address is stored or passed are roots too (callbacks)
  std::set<Function *> addrTaken;
  for (auto &F : *M) if (!F.isDeclaration() && F.hasAddressTaken()) addrTaken.insert(&F);
  std::vector<Function *> order; std::map<Function *, int> st; std::set<std::string> recursive;
  std::function<void(Function *)> dfs = [&](Function *F) {
    st[F] = 1;
    std::vector<Function *> cs;
    for (auto &I : instructions(*F)) {
      if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *c = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) cs.push_back(c);
      for (auto &O : I.operands()) if (auto *c = dyn_cast<Function>(O.get()->stripPointerCasts())) cs.push_back(c);
    }
    for (auto *c : cs) if (!c->isDeclaration()) { if (!st[c]) dfs(c); else if (st[c] == 1) recursive.insert(c->getName().str()); }
    st[F] = 2; order.push_back(F);
  };
  for (auto *F : roots) if (!st[F]) dfs(F);
  if (shard == 0) for (auto *F : addrTaken) if (!st[F]) dfs(F);
  std::set<Function *> done; unsigned inl = 0;
  for (auto *F : order) {
    F->removeFnAttr(Attribute::OptimizeNone);
    cutNoRet(*F);
    bool again = true; int guard = 0;
    while (again && guard++ < 50) {
      again = false;
      std::vector<CallBase *> w;
      for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *c = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()))
        if (done.count(c) && c != F) w.push_back(CB);
      for (auto *CB : w) { InlineFunctionInfo IFI; auto r = InlineFunction(*CB, IFI); if (r.isSuccess()) { inl++; again = true; } }
    }
    cutNoRet(*F);
    simplify(*F, 2);
    if (!F->isVarArg() && !recursive.count(F->getName().str())) done.insert(F);
  }
  std::set<Function *> rs(roots.begin(), roots.end());
  if (shard == 0) for (auto *F : order) if (addrTaken.count(F)) rs.insert(F);
  std::vector<Function *> dump; for (auto *F : order) if (rs.count(F)) dump.push_back(F);

  struct Cls { std::string body; std::string locs; std::vector<int> il; std::map<int, std::string> var; std::vector<std::pair<std::string, std::vector<std::string>>> mem; };
  std::vector<Cls> cl; std::map<std::string, size_t> idx;
  std::map<std::string, std::string> decl;
  for (auto *F : dump) {
    Dumper D(*F); D.run();
    auto it = idx.find(D.out.body);
    if (it == idx.end()) { it = idx.emplace(D.out.body, cl.size()).first; cl.push_back({D.out.body, D.locstr, D.instLoc, D.var, {}}); }
    cl[it->second].mem.push_back({F->getName().str(), D.out.holes});
    if (auto *SP = F->getSubprogram()) {
      std::string t = "[\"" + esc(SP->getFilename()) + "\"," + std::to_string(SP->getLine()) + ",[";
      bool f1 = true;
      if (auto *ST = SP->getType()) for (auto *ty : ST->getTypeArray()) { if (!f1) t += ","; f1 = false; t += std::to_string(typeId(ty)); }
      t += "],["; f1 = true;
      std::vector<std::string> an(F->arg_size());
      for (auto *N : SP->getRetainedNodes()) if (auto *LV = dyn_cast<DILocalVariable>(N)) if (LV->getArg() && LV->getArg() <= an.size()) an[LV->getArg() - 1] = LV->getName().str();
      for (auto &A : F->args()) { if (!f1) t += ","; f1 = false; t += "\"" + an[A.getArgNo()] + "\""; }
      t += "]]";
      decl[F->getName().str()] = t;
    } else decl[F->getName().str()] = "[\"\",0,[],[]]";
  }
  std::error_code ec; raw_fd_ostream o(argv[1], ec);
  o << "{\"inlined\":" << inl << ",\"functions\":" << order.size() << ",\"recursive\":[";
  { bool f = true; for (auto &r : recursive) { if (!f) o << ","; f = false; o << "\"" << esc(r) << "\""; } }
  o << "],\"addrtaken\":[";
  { bool f = true; for (auto *r : addrTaken) { if (!f) o << ","; f = false; o << "\"" << esc(r->getName()) << "\""; } }
  o << "],\"roots\":" << dump.size() << ",\"decl\":{";
  { bool f = true; for (auto &d : decl) { if (!f) o << ",\n"; f = false; o << "\"" << esc(d.first) << "\":" << d.second; } }
  o << "},\n\"enums\":{";
  { bool f = true; std::set<std::string> seen; DebugInfoFinder DF; DF.processModule(*M);
    for (auto *T : DF.types()) if (auto *c = dyn_cast<DICompositeType>(T)) if (c->getTag() == dwarf::DW_TAG_enumeration_type)
      for (auto *E : c->getElements()) if (auto *En = dyn_cast_or_null<DIEnumerator>(E)) { if (!seen.insert(En->getName().str()).second) continue; if (!f) o << ","; f = false; SmallString<16> v; En->getValue().toStringSigned(v); o << "\"" << esc(En->getName()) << "\":" << v.str(); } }
  o << "},\n\"globals\":{";
  { bool f = true; for (auto &G : M->globals()) { if (G.getName().starts_with(".str")) continue; if (!f) o << ","; f = false; o << "\"" << esc(G.getName()) << "\":[" << (G.isDeclaration() ? 0 : 1) << "," << (globalType(&G) ? typeId(globalType(&G)) : -1) << "," << (G.isConstant() ? 1 : 0) << "]"; } }
  o << "},\n\"classes\":[";
  for (size_t i = 0; i < cl.size(); i++) {
    if (i) o << ",\n";
    MD5 md; md.update(cl[i].body); MD5::MD5Result mr; md.final(mr); SmallString<32> ms; MD5::stringifyResult(mr, ms);
    o << "{\"key\":\"" << ms << "\",\"members\":{"; bool f = true;
    for (auto &m : cl[i].mem) { if (!f) o << ",\n"; f = false; o << "\"" << esc(m.first) << "\":["; bool g = true; for (auto &h : m.second) { if (!g) o << ","; g = false; o << "\"" << esc(h) << "\""; } o << "]"; }
    o << "},\"locs\":" << cl[i].locs << ",\"il\":["; f = true;
    for (int x : cl[i].il) { if (!f) o << ","; f = false; o << x; }
    o << "],\"var\":{"; f = true;
    for (auto &x : cl[i].var) { if (!f) o << ","; f = false; o << "\"" << x.first << "\":\"" << esc(x.second) << "\""; }
    o << "},\"body\":" << cl[i].body << "}";
  }
  o << "],\n\"types\":["; 
  for (size_t i = 0; i < Tout.size(); i++) o << (i ? ",\n" : "") << Tout[i];
  o << "]}\n";
  return 0;
}
