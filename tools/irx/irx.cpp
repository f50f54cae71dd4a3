// irx - turns a bitcode module into a small, canonical JSON program for the
// static checks in /verif.
//
//  irx IN.bc OUT.json [--root=PREFIX]... [--opaque=REGEX]... [--pure=REGEX]...
//      [--keep=REGEX]... [--root-dir=DIR]
//
//  * functions whose demangled name matches an --opaque/--pure regex lose their
//    body: a call of one of them is one effect (or, if pure, one value) of the
//    abstract program;
//  * every other function that has a body is force-inlined into the roots
//    (functions whose symbol starts with a --root prefix);
//  * the LLVM scalar pipeline (SROA, GVN, instcombine, simplifycfg, LICM,
//    indvars, full unrolling of constant loops - no vectorisation) then removes
//    the way the code was written and leaves what it computes.
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <map>
#include <regex>
#include <set>
using namespace llvm;

static std::vector<std::regex> Opaque, Pure, Keep, Argmem, Unroll;
static std::vector<std::string> Roots;

static bool any(const std::vector<std::regex> &V, const std::string &S) {
  for (auto &R : V)
    if (std::regex_search(S, R))
      return true;
  return false;
}

// full demangled name, then "@context::base" without parameters on its own line
static std::string matchName(const std::string &Mangled) {
  std::string D = llvm::demangle(Mangled);
  ItaniumPartialDemangler P;
  if (P.partialDemangle(Mangled.c_str()))
    return D + "\n@" + D;
  size_t N = 0;
  char *C = P.getFunctionDeclContextName(nullptr, &N);
  std::string S = C ? C : "";
  free(C); N = 0;
  char *B = P.getFunctionBaseName(nullptr, &N);
  std::string Bs = B ? B : "";
  free(B);
  return D + "\n@" + (S.empty() ? Bs : S + "::" + Bs);
}

static std::map<const Value *, int> Ids;
static int idOf(const Value *V) {
  auto It = Ids.find(V);
  if (It != Ids.end())
    return It->second;
  int N = (int)Ids.size();
  Ids[V] = N;
  return N;
}
static const DataLayout *DL;

static std::string tyStr(Type *T) {
  std::string S;
  raw_string_ostream OS(S);
  T->print(OS, false, true);
  return S;
}

static json::Value constVal(const Constant *C);

static json::Value operand(const Value *V) {
  if (auto *C = dyn_cast<Constant>(V))
    return constVal(C);
  if (auto *B = dyn_cast<BasicBlock>(V))
    return json::Object{{"k", "b"}, {"id", idOf(B)}};
  if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V))
    return json::Object{{"k", "x"}};
  return json::Object{{"k", "v"}, {"id", idOf(V)}};
}

static json::Value constVal(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) {
    SmallString<40> S;
    I->getValue().toString(S, 10, true);
    return json::Object{{"k", "i"}, {"n", S.str().str()}, {"w", (int)I->getBitWidth()}};
  }
  if (auto *F = dyn_cast<ConstantFP>(C)) {
    SmallString<40> S;
    F->getValueAPF().toString(S, 0, 0);
    // exact rational through hex string
    char Buf[64] = {0};
    APFloat A = F->getValueAPF();
    A.convertToHexString(Buf, 0, false, APFloat::rmNearestTiesToEven);
    return json::Object{{"k", "f"}, {"n", S.str().str()}, {"hex", std::string(Buf)}, {"t", tyStr(C->getType())}};
  }
  if (isa<ConstantPointerNull>(C))
    return json::Object{{"k", "null"}};
  if (isa<UndefValue>(C))
    return json::Object{{"k", "undef"}, {"p", isa<PoisonValue>(C)}};
  if (auto *GV = dyn_cast<GlobalValue>(C))
    return json::Object{{"k", "g"}, {"n", GV->getName().str()}};
  if (isa<ConstantAggregateZero>(C))
    return json::Object{{"k", "zero"}, {"t", tyStr(C->getType())}};
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    if (D->isString() || D->isCString()) {
      json::Array A;
      for (unsigned char Ch : D->getAsString())
        A.push_back((int)Ch);
      return json::Object{{"k", "str"}, {"b", std::move(A)}};
    }
    json::Array A;
    for (unsigned I = 0; I < D->getNumElements(); ++I)
      A.push_back(constVal(D->getElementAsConstant(I)));
    return json::Object{{"k", "agg"}, {"e", std::move(A)}, {"t", tyStr(C->getType())}};
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (auto *G = dyn_cast<GEPOperator>(CE)) {
      APInt Off(64, 0);
      if (G->accumulateConstantOffset(*DL, Off))
        return json::Object{{"k", "ge"},
                            {"base", operand(G->getPointerOperand())},
                            {"off", (int64_t)Off.getSExtValue()}};
    }
    json::Array A;
    for (auto &O : CE->operands())
      A.push_back(operand(O.get()));
    return json::Object{{"k", "ce"}, {"op", CE->getOpcodeName()}, {"e", std::move(A)}};
  }
  if (C->getNumOperands()) {
    json::Array A;
    for (auto &O : C->operands())
      A.push_back(operand(O.get()));
    json::Array Offs;
    if (auto *ST = dyn_cast<StructType>(C->getType())) {
      auto *SL = DL->getStructLayout(ST);
      for (unsigned I = 0; I < ST->getNumElements(); ++I)
        Offs.push_back((int64_t)SL->getElementOffset(I));
    }
    return json::Object{{"k", "agg"}, {"e", std::move(A)}, {"offs", std::move(Offs)}, {"t", tyStr(C->getType())}};
  }
  return json::Object{{"k", "const"}, {"t", tyStr(C->getType())}};
}

static json::Value locs(const Instruction &I) {
  json::Array A;
  for (const DILocation *L = I.getDebugLoc(); L; L = L->getInlinedAt()) {
    std::string F = L->getFilename().str();
    if (!F.empty() && F[0] != '/') F = L->getDirectory().str() + "/" + F;
    std::string Fn;
    if (auto *SP = L->getScope()->getSubprogram())
      Fn = SP->getName().str();
    A.push_back(json::Array{F, (int)L->getLine(), Fn});
  }
  return std::move(A);
}

struct PinEffects : PassInfoMixin<PinEffects> {
  bool Pin;
  explicit PinEffects(bool P) : Pin(P) {}
  PreservedAnalyses run(Function &F, FunctionAnalysisManager &) {
    for (auto &BB : F)
      for (auto &I : BB)
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (!isa<IntrinsicInst>(CB) && !CB->onlyReadsMemory()) {
            if (Pin) CB->addFnAttr(Attribute::NoDuplicate);
            else CB->removeFnAttr(Attribute::NoDuplicate);
          }
    return PreservedAnalyses::all();
  }
};

int main(int argc, char **argv) {
  std::string In, Out, Pipe = "";
  bool Raw = false;
  for (int I = 1; I < argc; ++I) {
    std::string A = argv[I];
    auto rx = [&](const char *P, std::vector<std::regex> &V) {
      if (A.rfind(P, 0) == 0) {
        V.emplace_back(A.substr(strlen(P)), std::regex::ECMAScript | std::regex::optimize);
        return true;
      }
      return false;
    };
    if (rx("--opaque=", Opaque) || rx("--pure=", Pure) || rx("--keep=", Keep) || rx("--argmem=", Argmem) || rx("--unroll=", Unroll))
      continue;
    if (A.rfind("--root=", 0) == 0) { Roots.push_back(A.substr(7)); continue; }
    if (A.rfind("--pipeline=", 0) == 0) { Pipe = A.substr(11); continue; }
    if (A == "--raw") { Raw = true; continue; }
    if (In.empty()) In = A; else Out = A;
  }
  if (Roots.empty()) Roots.push_back("w_");
  {
    const char *Opts[] = {"irx", "-unroll-threshold=20000", "-unroll-max-percent-threshold-boost=1000",
                          "-unroll-allow-partial=0", "-unroll-allow-peeling=0", "-unroll-runtime=0", "-unroll-full-max-count=64",
                          "-inline-threshold=100000", "-disable-loop-idiom-all",
                          "-enable-loop-flatten=0", "-disable-vector-combine", "-scalarize-load-store", "-enable-loopinterchange=0", "-enable-load-pre=0", "-enable-pre=0", "-enable-split-backedge-in-load-pre=0", "-enable-load-in-loop-pre=0"};
    cl::ParseCommandLineOptions(sizeof(Opts) / sizeof(*Opts), Opts);
  }
  LLVMContext Ctx;
  SMDiagnostic Err;
  std::unique_ptr<Module> M = parseIRFile(In, Err, Ctx);
  if (!M) { Err.print("irx", errs()); return 2; }
  DL = &M->getDataLayout();

  for (GlobalVariable &G : M->globals()) G.setUnnamedAddr(GlobalValue::UnnamedAddr::None);   // no two are the same object
  std::set<std::string> OpaqueSeen, InlinedSeen;
  for (Function &F : *M) {
    std::string Name = F.getName().str();
    if (F.isIntrinsic()) continue;
    std::string D = matchName(Name);
    bool Root = false;
    for (auto &R : Roots) Root |= (Name.rfind(R, 0) == 0);
    if (Root) { F.removeFnAttr(Attribute::NoInline); F.setDSOLocal(true); continue; }
    bool P = any(Pure, D) , AM = !P && any(Argmem, D), O = P || AM || any(Opaque, D);
    if (O || F.isDeclaration()) {
      if (O && !any(Keep, D)) {
        if (!F.isDeclaration()) { OpaqueSeen.insert(llvm::demangle(Name)); F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); }
        F.removeFnAttr(Attribute::AlwaysInline);
      }
      if (P) {
        F.setMemoryEffects(MemoryEffects::argMemOnly(ModRefInfo::Ref));
        F.setWillReturn(); F.setDoesNotThrow();
        F.addFnAttr(Attribute::NoSync); F.addFnAttr(Attribute::NoFree);
      } else if (AM) {
        F.setMemoryEffects(MemoryEffects::inaccessibleOrArgMemOnly()); // the outside world is memory of its own
        F.setWillReturn();
      }
      if (F.isDeclaration()) F.setDoesNotThrow();
      continue;
    }
    if (any(Keep, D)) { F.addFnAttr(Attribute::NoInline); F.setDoesNotThrow(); continue; }
    InlinedSeen.insert(llvm::demangle(Name));
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::OptimizeNone);
    F.addFnAttr(Attribute::AlwaysInline);
    F.setComdat(nullptr);
    F.setLinkage(GlobalValue::InternalLinkage);
  }
  // the const and the non-const form of a container's begin, find, iterator... are one operation
  {
    std::vector<Function *> Todo;
    for (Function &F : *M)
      if (F.isDeclaration() && !F.isIntrinsic()) Todo.push_back(&F);
    for (Function *F : Todo) {
      std::string N = F->getName().str(), C = N;
      for (const char *P : {"_ZNKSt3map", "_ZNKSt3set", "_ZNKSt13unordered_", "_ZNKSt8multi", "_ZNKSt7__cxx114list", "_ZNKSt5deque", "_ZNKSt23_Rb_tree_const_iterator", "_ZNKSt17_Rb_tree_iterator"})
        if (N.rfind(P, 0) == 0) { C = "_ZN" + N.substr(4); break; }
      if (C.rfind("_ZNSt23_Rb_tree_const_iterator", 0) == 0) C = "_ZNSt17_Rb_tree_iterator" + C.substr(strlen("_ZNSt23_Rb_tree_const_iterator"));
      if (C == N) continue;
      if (Function *G = M->getFunction(C)) {
        if (G != F && G->getFunctionType() == F->getFunctionType() && G->isDeclaration()) F->replaceAllUsesWith(G);
      } else F->setName(C);
    }
  }
  if (!Raw) {
    for (Function &F : *M)
      for (auto &BB : F)
        for (auto &I : BB)
          if (auto *CB = dyn_cast<CallBase>(&I)) {
            CB->setDoesNotThrow();
            CB->removeFnAttr(Attribute::Memory);
          }
  }

  // a group of functions that call one another is unrolled to a fixed depth;
  // the calls beyond it stay calls
  if (!Unroll.empty()) {
    CallGraph CG(*M);
    std::vector<std::vector<Function *>> Groups;
    for (auto It = scc_begin(&CG); !It.isAtEnd(); ++It) {
      std::vector<Function *> G;
      bool Named = false;
      for (CallGraphNode *N : *It)
        if (Function *F = N->getFunction())
          if (!F->isDeclaration()) { G.push_back(F); Named |= any(Unroll, matchName(F->getName().str())); }
      if (Named && It.hasCycle()) Groups.push_back(G);
    }
    for (auto &G : Groups) {
      const unsigned Levels = 3;
      std::map<Function *, std::vector<Function *>> At;
      for (Function *F : G) {
        At[F] = {F};
        for (unsigned K = 1; K < Levels; ++K) {
          ValueToValueMapTy VM;
          Function *N = CloneFunction(F, VM);
          N->setName(F->getName() + ".level" + Twine(K));
          At[F].push_back(N);
        }
        Function *Deep = Function::Create(F->getFunctionType(), GlobalValue::ExternalLinkage, F->getName() + ".deep", *M);
        Deep->setDoesNotThrow();
        At[F].push_back(Deep);
      }
      for (Function *F : G)
        for (unsigned K = 0; K < Levels; ++K)
          for (auto &BB : *At[F][K])
            for (auto &I : BB)
              if (auto *CB = dyn_cast<CallBase>(&I))
                if (auto *C = CB->getCalledFunction())
                  if (At.count(C)) CB->setCalledFunction(At[C][K + 1]);
    }
  }

  PipelineTuningOptions PTO;
  PTO.LoopVectorization = false; PTO.SLPVectorization = false; PTO.LoopInterleaving = false;
  PTO.LoopUnrolling = true;
  PassBuilder PB(nullptr, PTO);
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  // rotating a loop must not copy an effect out of it
  PB.registerPipelineParsingCallback([](StringRef N, FunctionPassManager &FPM, ArrayRef<PassBuilder::PipelineElement>) {
    if (N == "pin-effects") { FPM.addPass(PinEffects(true)); return true; }
    if (N == "unpin-effects") { FPM.addPass(PinEffects(false)); return true; }
    return false;
  });
  ModulePassManager MPM;
  if (!Raw) {
    if (Pipe.empty()) {
      // scalar clean-up and full unrolling of constant loops only: no pass that
      // restructures control flow or moves code across loops
      std::string One = "sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,";
      std::string Round = One + "pin-effects,loop-simplify,lcssa,loop(loop-rotate),unpin-effects,simplifycfg,instcombine<no-verify-fixpoint>,loop-simplify,lcssa,loop(indvars,loop-deletion),loop-unroll<O3;no-partial;no-peeling;no-runtime;no-upperbound;full-unroll-max=64>," + One + "sccp,";
      Pipe = "inferattrs,cgscc(function-attrs),function(" + Round + Round + Round + "adce)";
    }
    std::string P = "always-inline,function(scalarizer)," + Pipe + ",function(scalarizer,instcombine<no-verify-fixpoint>,simplifycfg,early-cse<memssa>,dse,adce,instsimplify),globaldce";
    if (auto *D = getenv("IRX_DUMP")) { std::error_code EC; raw_fd_ostream OS(D, EC); OS << *M; errs() << P << "\n"; }
    if (auto E = PB.parsePassPipeline(MPM, P)) { errs() << "pipeline: " << toString(std::move(E)) << "\n"; return 2; }
    MPM.run(*M, MAM);
    // a call through a pointer may have become a direct call to a function with a body
    // and one round of clean-up may enable the next: repeat until nothing changes
    size_t Before = 0;
    auto Count = [&] {
      size_t N = 0;
      for (Function &F : *M)
        for (auto &BB : F) N += 1000 + BB.size();
      return N;
    };
    Before = 0;
    for (int Again = 0; Again < 12; ++Again) {
      size_t Now = Count();
      bool Left = Now != Before;
      Before = Now;
      for (Function &F : *M)
        for (auto &BB : F)
          for (auto &I : BB)
            if (auto *CB = dyn_cast<CallBase>(&I))
              if (auto *C = CB->getCalledFunction())
                if (C != &F && !C->isDeclaration() && C->hasFnAttribute(Attribute::AlwaysInline) && C->getFunctionType() == CB->getFunctionType()) Left = true;
      if (!Left) break;
      ModulePassManager More;
      if (auto E = PB.parsePassPipeline(More, P)) { errs() << "pipeline: " << toString(std::move(E)) << "\n"; return 2; }
      MAM.clear(); CAM.clear(); FAM.clear(); LAM.clear();
      More.run(*M, MAM);
    }
  }

  json::Object Funcs;
  json::Object Demangled;
  for (Function &F : *M) {
    if (!F.isIntrinsic()) Demangled[F.getName()] = llvm::demangle(F.getName().str());
    if (F.isDeclaration()) continue;
    bool Root = false;
    for (auto &R : Roots) Root |= F.getName().starts_with(R);
    if (!Root && !any(Keep, matchName(F.getName().str()))) continue;
    Ids.clear();
    DominatorTree DT(F);
    LoopInfo LI(DT);
    json::Array Args;
    for (auto &A : F.args()) {
      json::Object O{{"id", idOf(&A)}, {"t", tyStr(A.getType())}, {"n", A.getName().str()}};
      if (A.hasStructRetAttr()) O["sret"] = true;
      if (A.hasNoAliasAttr()) O["noalias"] = true;
      Args.push_back(std::move(O));
    }
    json::Array Blocks;
    std::map<const Loop *, int> LoopIds;
    for (auto &BB : F) {
      json::Object B{{"id", idOf(&BB)}};
      json::Array Pr, Su, Is;
      for (auto *P : predecessors(&BB)) Pr.push_back(idOf(P));
      for (auto *S : successors(&BB)) Su.push_back(idOf(S));
      B["preds"] = std::move(Pr); B["succs"] = std::move(Su);
      if (auto *N = DT.getNode(&BB)) { if (N->getIDom()) B["idom"] = idOf(N->getIDom()->getBlock()); }
      else B["dead"] = true;
      json::Array Ls;
      for (Loop *L = LI.getLoopFor(&BB); L; L = L->getParentLoop()) Ls.push_back(idOf(L->getHeader()));
      B["loops"] = std::move(Ls); // innermost first, by header id
      for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
          auto ID = II->getIntrinsicID();
          if (ID == Intrinsic::assume || ID == Intrinsic::experimental_noalias_scope_decl) continue;
        }
        json::Object O{{"id", idOf(&I)}, {"op", I.getOpcodeName()}, {"t", tyStr(I.getType())}};
        json::Array Ops;
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          for (auto &A : CB->args()) Ops.push_back(operand(A.get()));
          if (auto *CF = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) {
            O["callee"] = CF->getName().str();
            if (CF->isIntrinsic()) O["intrinsic"] = true;
          } else
            O["calleev"] = operand(CB->getCalledOperand());
          if (CB->onlyReadsMemory()) O["ro"] = true;
          if (CB->doesNotAccessMemory()) O["rn"] = true;
          if (CB->onlyAccessesInaccessibleMemOrArgMem()) O["am"] = true;
          if (CB->doesNotReturn()) O["nr"] = true;
          json::Array SR;
          for (unsigned K = 0; K < CB->arg_size(); ++K)
            if (CB->paramHasAttr(K, Attribute::StructRet)) SR.push_back((int)K);
          if (!SR.empty()) O["sret"] = std::move(SR);
          json::Array NP;
          for (unsigned K = 0; K < CB->arg_size(); ++K)
            if (CB->getArgOperand(K)->getType()->isIntegerTy() || CB->getArgOperand(K)->getType()->isFloatingPointTy()) NP.push_back((int)K);
          if (!NP.empty()) O["num"] = std::move(NP);
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          for (unsigned K = 0; K < P->getNumIncomingValues(); ++K)
            Ops.push_back(json::Array{operand(P->getIncomingValue(K)), idOf(P->getIncomingBlock(K))});
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          Ops.push_back(operand(G->getPointerOperand()));
          MapVector<Value *, APInt> Var;
          APInt Off(64, 0);
          if (G->collectOffset(*DL, 64, Var, Off)) {
            O["off"] = (int64_t)Off.getSExtValue();
            json::Array Vs;
            for (auto &KV : Var) Vs.push_back(json::Array{operand(KV.first), (int64_t)KV.second.getSExtValue()});
            O["var"] = std::move(Vs);
          }
        } else {
          for (auto &Op : I.operands()) Ops.push_back(operand(Op.get()));
          if (auto *C = dyn_cast<CmpInst>(&I)) { O["pred"] = CmpInst::getPredicateName(C->getPredicate()).str(); O["ot"] = tyStr(C->getOperand(0)->getType()); }
          if (auto *C = dyn_cast<CastInst>(&I)) O["ot"] = tyStr(C->getOperand(0)->getType());
          if (auto *L = dyn_cast<LoadInst>(&I)) { O["sz"] = (int64_t)DL->getTypeStoreSize(L->getType()); (void)L; }
          if (auto *S = dyn_cast<StoreInst>(&I)) { O["sz"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()); O["vt"] = tyStr(S->getValueOperand()->getType()); }
          if (auto *A = dyn_cast<AllocaInst>(&I)) { O["sz"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType()); std::string T = tyStr(A->getAllocatedType()); size_t Q = T.find("_Rb_tree_const_iterator"); if (Q != std::string::npos) T.replace(Q, 23, "_Rb_tree_iterator"); O["at"] = T; }
          if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array X; for (auto K : E->indices()) X.push_back((int)K); O["idx"] = std::move(X); }
          if (auto *E = dyn_cast<InsertValueInst>(&I)) { json::Array X; for (auto K : E->indices()) X.push_back((int)K); O["idx"] = std::move(X); }
          if (auto *PE = dyn_cast<PossiblyExactOperator>(&I)) { if (PE->isExact()) O["exact"] = true; }
          if (auto *OB = dyn_cast<PossiblyDisjointInst>(&I)) O["disjoint"] = OB->isDisjoint();
          if (auto *SW = dyn_cast<SwitchInst>(&I)) {
            Ops.clear(); Ops.push_back(operand(SW->getCondition()));
            json::Array Cs;
            for (auto &Cc : SW->cases()) Cs.push_back(json::Array{operand(Cc.getCaseValue()), idOf(Cc.getCaseSuccessor())});
            O["cases"] = std::move(Cs); O["default"] = idOf(SW->getDefaultDest());
          }
        }
        O["o"] = std::move(Ops);
        O["loc"] = locs(I);
        Is.push_back(std::move(O));
      }
      B["i"] = std::move(Is);
      Blocks.push_back(std::move(B));
    }
    Funcs[F.getName()] = json::Object{{"args", std::move(Args)}, {"blocks", std::move(Blocks)}, {"ret", tyStr(F.getReturnType())}};
  }
  json::Object Gl;
  for (auto &G : M->globals()) {
    json::Object O{{"t", tyStr(G.getValueType())}, {"const", G.isConstant()}, {"tls", G.isThreadLocal()}};
    if (G.hasInitializer()) O["init"] = constVal(G.getInitializer());
    Gl[G.getName()] = std::move(O);
  }
  json::Array OS, IS;
  for (auto &S : OpaqueSeen) OS.push_back(S);
  for (auto &S : InlinedSeen) IS.push_back(S);
  json::Object Root{{"functions", std::move(Funcs)}, {"globals", std::move(Gl)}, {"demangled", std::move(Demangled)},
                    {"opaque", std::move(OS)}, {"inlined", std::move(IS)}};
  std::error_code EC;
  raw_fd_ostream OSF(Out, EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  OSF << json::Value(std::move(Root)) << "\n";
  return 0;
}
