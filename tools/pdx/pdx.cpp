// pdx: normaliser for the static checks.
//
// Links bitcode files, resolves virtual calls on the analysed object, inlines
// every function that is defined in the analysed source tree, leaves library
// calls opaque, promotes memory to SSA form and prints the result as JSON.
//
//   pdx [--root DIR] [--max N] --out FILE  SPEC... -- a.bc b.bc ...
//   SPEC:  vt:BASE:method1,method2   every concrete class derived from BASE:
//                                    the named virtual methods, per class
//          ctor:BASE                 constructors of those classes
//          fn:REGEX                  functions whose demangled name matches
//          raw:REGEX                 as fn:, but only file-local functions and small driver helpers are inlined
//          calls:                    summary of every function in the tree
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/InlineCost.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::string Root = "/repo/src";
static unsigned MaxInsts = 60000;

static std::map<const Function *, std::string> DemCache;
static const std::string &dem(const Function *F) {
  auto It = DemCache.find(F);
  if (It != DemCache.end()) return It->second;
  return DemCache[F] = demangle(F->getName().str());
}
static std::string diPath(const DIFile *F) {
  if (!F) return "";
  std::string N = F->getFilename().str();
  if (!N.empty() && N[0] == '/') return N;
  return F->getDirectory().str() + "/" + N;
}
static bool inTree(const Function *F) {
  if (F->isDeclaration()) return false;
  const DISubprogram *SP = F->getSubprogram();
  if (!SP) return false;
  return StringRef(diPath(SP->getFile())).starts_with(Root);
}

// ---- exceptions -------------------------------------------------------------
static void dropInvokes(Function &F) {
  std::vector<InvokeInst *> Is;
  for (auto &I : instructions(F))
    if (auto *II = dyn_cast<InvokeInst>(&I)) Is.push_back(II);
  for (auto *II : Is) {
    SmallVector<Value *, 8> Args(II->args());
    SmallVector<OperandBundleDef, 1> B;
    CallInst *C = CallInst::Create(II->getFunctionType(), II->getCalledOperand(), Args, B, "", II);
    C->setCallingConv(II->getCallingConv());
    C->setAttributes(II->getAttributes());
    C->setDebugLoc(II->getDebugLoc());
    II->replaceAllUsesWith(C);
    BasicBlock *UD = II->getUnwindDest();
    BasicBlock *N = II->getNormalDest();
    BranchInst *Br = BranchInst::Create(N, II);
    Br->setDebugLoc(II->getDebugLoc());
    UD->removePredecessor(II->getParent());
    II->eraseFromParent();
  }
  removeUnreachableBlocks(F);
}

// vec.ExtractView(&p) is p = view(vec): the local pointer does not escape.
// Virtual calls: remember the static class and the slot, list the project's
// implementations, and take the type tests out again.
static std::map<std::pair<std::string, uint64_t>, std::vector<std::string>> Impl;

static void virtualCalls(Module &M) {
  for (auto &G : M.globals()) {
    if (!G.hasName() || !G.getName().starts_with("_ZTV") || !G.hasInitializer()) continue;
    SmallVector<MDNode *, 4> Ts;
    G.getMetadata(LLVMContext::MD_type, Ts);
    auto *CS = dyn_cast<ConstantStruct>(G.getInitializer());
    if (!CS) continue;
    for (auto *T : Ts) {
      auto *Cls = dyn_cast<MDString>(T->getOperand(1));
      auto *Off = mdconst::dyn_extract<ConstantInt>(T->getOperand(0));
      if (!Cls || !Off) continue;
      uint64_t At = 0;
      for (unsigned k = 0; k < CS->getNumOperands(); ++k) {
        auto *CA = dyn_cast<ConstantArray>(CS->getOperand(k));
        if (!CA) continue;
        for (unsigned i = 0; i < CA->getNumOperands(); ++i, At += 8)
          if (At >= Off->getZExtValue())
            if (auto *F = dyn_cast<Function>(CA->getOperand(i)->stripPointerCasts())) {
              auto &V = Impl[{Cls->getString().str(), At - Off->getZExtValue()}];
              std::string N = demangle(F->getName().str());
              if (std::find(V.begin(), V.end(), N) == V.end()) V.push_back(N);
            }
      }
    }
  }
  std::vector<CallInst *> Tests;
  for (auto &F : M)
    for (auto &I : instructions(F))
      if (auto *C = dyn_cast<CallInst>(&I))
        if (auto *D = C->getCalledFunction())
          if (D->getName() == "llvm.public.type.test" || D->getName() == "llvm.type.test") Tests.push_back(C);
  for (auto *T : Tests) {
    auto *Cls = dyn_cast<MDString>(cast<MetadataAsValue>(T->getArgOperand(1))->getMetadata());
    Value *VT = T->getArgOperand(0);
    if (Cls)
      for (auto *U : VT->users()) {
        uint64_t Slot = 0;
        std::vector<Value *> Slots;
        if (auto *G = dyn_cast<GetElementPtrInst>(U)) {
          APInt Off(64, 0);
          if (!G->accumulateConstantOffset(M.getDataLayout(), Off)) continue;
          Slot = Off.getZExtValue();
          for (auto *L : G->users()) Slots.push_back(L);
        } else if (isa<LoadInst>(U)) Slots.push_back(U);
        for (auto *L : Slots)
          if (isa<LoadInst>(L))
            for (auto *X : L->users())
              if (auto *C = dyn_cast<CallBase>(X))
                if (C->getCalledOperand() == L)
                  C->setMetadata("pdx.virtual", MDNode::get(M.getContext(), {Cls, ConstantAsMetadata::get(ConstantInt::get(Type::getInt64Ty(M.getContext()), Slot))}));
      }
    std::vector<Instruction *> Us;
    for (auto *U : T->users()) Us.push_back(cast<Instruction>(U));
    for (auto *U : Us) {
      if (auto *C = dyn_cast<CallInst>(U)) if (C->getCalledFunction() && C->getCalledFunction()->getName() == "llvm.assume") { C->eraseFromParent(); continue; }
      U->replaceUsesOfWith(T, ConstantInt::getTrue(M.getContext()));
    }
    T->eraseFromParent();
  }
}

static void explicitViews(Module &M) {
  Function *EV = M.getFunction("_ZNK13Epetra_Vector11ExtractViewEPPd");
  if (!EV) return;
  auto &Ctx = M.getContext();
  Type *P = PointerType::getUnqual(Ctx);
  FunctionCallee V = M.getOrInsertFunction("pdx.view", FunctionType::get(P, {P}, false));
  auto *F = cast<Function>(V.getCallee());
  F->setDoesNotAccessMemory();
  F->setDoesNotThrow();
  F->addFnAttr(Attribute::WillReturn);
  std::vector<CallInst *> Cs;
  for (auto *U : EV->users())
    if (auto *C = dyn_cast<CallInst>(U))
      if (C->getCalledOperand() == EV) Cs.push_back(C);
  for (auto *C : Cs) {
    CallInst *N = CallInst::Create(V, {C->getArgOperand(0)}, "", C);
    N->setDebugLoc(C->getDebugLoc());
    auto *S = new StoreInst(N, C->getArgOperand(1), C);
    S->setDebugLoc(C->getDebugLoc());
    C->replaceAllUsesWith(ConstantInt::get(C->getType(), 0));
    C->eraseFromParent();
  }
}

// ---- classes ----------------------------------------------------------------
struct ClassInfo {
  std::string Mangled; // after _ZTV
  std::string Name;
  GlobalVariable *VT;
  std::set<std::string> Bases; // demangled, transitive
};
static void collectBases(GlobalVariable *TI, std::set<std::string> &Out, int Depth = 0) {
  if (!TI || !TI->hasInitializer() || Depth > 12) return;
  auto *CS = dyn_cast<ConstantStruct>(TI->getInitializer());
  if (!CS) return;
  for (unsigned i = 2; i < CS->getNumOperands(); ++i) {
    if (auto *G = dyn_cast<GlobalVariable>(CS->getOperand(i)->stripPointerCasts())) {
      if (G->getName().starts_with("_ZTI")) {
        std::string D = demangle(G->getName().str()); // "typeinfo for X"
        Out.insert(D.substr(13));
        collectBases(G, Out, Depth + 1);
      }
    }
  }
}
static std::vector<ClassInfo> collectClasses(Module &M) {
  std::vector<ClassInfo> R;
  for (auto &G : M.globals()) {
    if (!G.getName().starts_with("_ZTV") || !G.hasInitializer()) continue;
    ClassInfo C;
    C.Mangled = G.getName().substr(4).str();
    C.Name = demangle(G.getName().str()).substr(11); // "vtable for X"
    C.VT = &G;
    if (auto *TI = M.getGlobalVariable("_ZTI" + C.Mangled)) collectBases(TI, C.Bases);
    R.push_back(C);
  }
  return R;
}
static std::vector<Function *> vtSlots(GlobalVariable *VT) {
  std::vector<Function *> R;
  auto *CS = dyn_cast<ConstantStruct>(VT->getInitializer());
  if (!CS || CS->getNumOperands() < 1) return R;
  auto *A = dyn_cast<ConstantArray>(CS->getOperand(0));
  if (!A) return R;
  for (unsigned i = 2; i < A->getNumOperands(); ++i)
    R.push_back(dyn_cast<Function>(A->getOperand(i)->stripPointerCasts()));
  return R;
}
static std::string methodOf(const std::string &D) {
  // last component before the argument list
  size_t P = D.find('(');
  // handle operator()
  std::string H = D.substr(0, P);
  int depth = 0; size_t last = 0;
  for (size_t i = 0; i + 1 < H.size(); ++i) {
    if (H[i] == '<') depth++;
    else if (H[i] == '>') depth--;
    else if (H[i] == ':' && H[i + 1] == ':' && depth == 0) last = i + 2;
  }
  return H.substr(last);
}

// ---- inlining ---------------------------------------------------------------
static bool isVptrLoad(LoadInst *LI) {
  if (auto *MD = LI->getMetadata(LLVMContext::MD_tbaa)) {
    if (MD->getNumOperands() >= 2)
      if (auto *T = dyn_cast<MDNode>(MD->getOperand(1)))
        if (T->getNumOperands() >= 1)
          if (auto *S = dyn_cast<MDString>(T->getOperand(0)))
            return S->getString() == "vtable pointer";
  }
  return false;
}
static Value *stripAll(Value *V) { return V->stripPointerCasts(); }

static bool devirt(Function &F, GlobalVariable *VT, const std::set<Value *> &ThisVals) {
  bool Changed = false;
  if (!VT || F.arg_empty()) return false;
  auto Slots = vtSlots(VT);
  std::vector<LoadInst *> Ls;
  for (auto &I : instructions(F))
    if (auto *LI = dyn_cast<LoadInst>(&I))
      if (LI->getType()->isPointerTy() && isVptrLoad(LI)) {
        Value *P = stripAll(LI->getPointerOperand());
        if (ThisVals.count(P)) Ls.push_back(LI);
      }
  for (auto *LI : Ls) {
    std::vector<User *> Us(LI->user_begin(), LI->user_end());
    for (auto *U : Us) {
      int64_t Off = 0;
      LoadInst *FL = nullptr;
      if (auto *G = dyn_cast<GetElementPtrInst>(U)) {
        APInt A(64, 0);
        if (!G->accumulateConstantOffset(F.getParent()->getDataLayout(), A)) continue;
        Off = A.getSExtValue();
        if (!G->hasOneUse()) continue;
        FL = dyn_cast<LoadInst>(*G->user_begin());
      } else
        FL = dyn_cast<LoadInst>(U);
      if (!FL) continue;
      unsigned Idx = Off / 8;
      if (Idx < Slots.size() && Slots[Idx]) {
        FL->replaceAllUsesWith(Slots[Idx]);
        Changed = true;
      }
    }
  }
  return Changed;
}

static void simplifyLight(Function &F, FunctionAnalysisManager &FAM, FunctionPassManager &P) {
  PreservedAnalyses PA = P.run(F, FAM);
  (void)PA;
  FAM.clear(F, F.getName());
}

static std::set<std::string> NoInline; // demangled prefixes kept as calls
static std::vector<Regex *> NoInlineRx;
static std::vector<std::string> Notes;

// Header-only algorithms on plain numbers and pointers to them are as good as written out.
static bool plainAlgorithm(const std::string &D) {
  static Regex Rx("(^| )std::(max|min|swap|fill|fill_n|copy|copy_n|abs|accumulate|inner_product|__fill[a-z_0-9]*|__copy[a-z_0-9]*|__niter[a-z_]*|__miter[a-z_]*|__copy_move<[a-z, :_]*>::__copy_m)<[^()]*>[(]"
                  "((const|double|int|unsigned|long|bool|float)[ *&,]*)*[)]$");
  static Regex It("__gnu_cxx::(__normal_iterator<(double|int|unsigned int|long|unsigned long)( const)?[*], [^()]*>::[^()]*|operator(!=|==|-|<|>)<(double|int|unsigned int|long|unsigned long)( const)?[*].*)[(]");
  return Rx.match(D) || It.match(D);
}
static bool wantInline(Function *C) {
  if (!C || C->isDeclaration() || C->isVarArg()) return false;
  if (!inTree(C)) return C->getSubprogram() && plainAlgorithm(dem(C));
  const std::string &D = dem(C);
  for (auto *R : NoInlineRx)
    if (R->match(D)) return false;
  return true;
}

static unsigned instCount(Function &F);
// In raw mode only file-local functions (lambdas, static helpers) and small driver
// helpers that are handed vectors are written out at their call sites.
static bool LocalOnly = false;
static bool localHelper(Function *C) {
  if (C->hasInternalLinkage()) return true;
  static Regex Rx("^PeridigmNS::Peridigm::[A-Za-z0-9_]+[(].*Epetra_(Multi)?Vector");
  return Rx.match(dem(C)) && instCount(*C) < 400;
}

static unsigned instCount(Function &F) { unsigned n = 0; for (auto &B : F) n += B.size(); return n; }

static void inlineAll(Function &F, GlobalVariable *VT, bool Devirt, FunctionAnalysisManager &FAM, FunctionPassManager &Light) {
  std::map<const Function *, int> Count;
  for (int Round = 0; Round < 64; ++Round) {
    if (Devirt && !F.arg_empty()) {
      std::set<Value *> TV;
      TV.insert(&*F.arg_begin());
      if (F.arg_begin()->hasStructRetAttr() && F.arg_size() > 1) { TV.clear(); TV.insert(F.getArg(1)); }
      devirt(F, VT, TV);
    }
    std::vector<CallInst *> Cs;
    for (auto &I : instructions(F))
      if (auto *C = dyn_cast<CallInst>(&I)) {
        Function *T = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
        if (!T || T == &F || !(LocalOnly ? !T->isDeclaration() && !T->isVarArg() && inTree(T) && localHelper(T) : wantInline(T))) continue;
        if (T->getFunctionType() != C->getFunctionType()) continue;
        Cs.push_back(C);
      }
    if (Cs.empty()) break;
    bool Did = false;
    for (auto *C : Cs) {
      Function *T = cast<Function>(C->getCalledOperand()->stripPointerCasts());
      // depth bound against recursion: count how often T occurs in the inlined-at chain
      int Occ = 0; int Depth = 0;
      for (const DILocation *L = C->getDebugLoc().get(); L; L = L->getInlinedAt()) {
        if (L->getScope()->getSubprogram() == T->getSubprogram()) Occ++;
        Depth++;
      }
      if (Occ > 0 || Depth > 40) continue;
      if (instCount(F) + instCount(*T) > MaxInsts) { Notes.push_back("size limit at call to " + dem(T) + " in " + F.getName().str()); continue; }
      InlineFunctionInfo IFI;
      if (InlineFunction(*C, IFI).isSuccess()) Did = true;
    }
    if (!Did) break;
    dropInvokes(F);
    simplifyLight(F, FAM, Light);
  }
}

// ---- JSON -------------------------------------------------------------------
static std::string tyName(Type *T) {
  if (T->isDoubleTy()) return "d";
  if (T->isFloatTy()) return "f";
  if (T->isPointerTy()) return "p";
  if (T->isVoidTy()) return "v";
  if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
  if (T->isArrayTy() || T->isStructTy()) return "agg";
  if (T->isVectorTy()) return "vec";
  return "o";
}
static json::Value strOf(GlobalVariable *G) {
  if (G->hasInitializer() && G->isConstant())
    if (auto *CD = dyn_cast<ConstantDataArray>(G->getInitializer())) {
      if (CD->isCString()) return json::fixUTF8(CD->getAsCString());
      if (CD->isString()) return json::fixUTF8(CD->getAsString());
    }
  return nullptr;
}
struct Dumper {
  const DataLayout &DL;
  DenseMap<const Value *, int> Id;
  int Next = 0;
  Dumper(const DataLayout &D) : DL(D) {}
  int id(const Value *V) {
    auto It = Id.find(V);
    if (It != Id.end()) return It->second;
    return Id[V] = Next++;
  }
  json::Value op(const Value *V) {
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      if (C->getBitWidth() <= 64) return json::Object{{"k", "i"}, {"v", C->getBitWidth() == 1 ? (int64_t)C->getZExtValue() : C->getSExtValue()}};
      return json::Object{{"k", "u"}};
    }
    if (auto *C = dyn_cast<ConstantFP>(V)) {
      SmallString<40> S;
      APFloat A = C->getValueAPF();
      bool L; A.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &L);
      double dv = A.convertToDouble();
      char buf[64]; snprintf(buf, sizeof buf, "%.17g", dv);
      return json::Object{{"k", "d"}, {"v", std::string(buf)}};
    }
    if (isa<ConstantPointerNull>(V)) return json::Object{{"k", "n"}};
    if (isa<UndefValue>(V)) return json::Object{{"k", "u"}};
    if (isa<ConstantAggregateZero>(V)) return json::Object{{"k", "z"}};
    if (auto *F = dyn_cast<Function>(V)) return json::Object{{"k", "F"}, {"v", dem(F)}};
    if (auto *C = dyn_cast<Constant>(V)) {
      APInt Off(64, 0);
      const Value *B = C->stripAndAccumulateConstantOffsets(DL, Off, true);
      if (auto *G = dyn_cast<GlobalVariable>(B)) {
        json::Object O{{"k", "g"}, {"v", G->getName().str()}, {"off", Off.getSExtValue()}};
        auto S = strOf(const_cast<GlobalVariable *>(G));
        if (S.getAsString()) O["s"] = std::move(S);
        else if (G->hasInitializer() && G->isConstant()) {
          // constant scalar tables
          if (auto *CD = dyn_cast<ConstantDataSequential>(G->getInitializer())) {
            json::Array A;
            for (unsigned i = 0; i < CD->getNumElements() && i < 64; ++i) {
              if (CD->getElementType()->isIntegerTy()) A.push_back((int64_t)CD->getElementAsInteger(i));
              else if (CD->getElementType()->isDoubleTy()) { char b[64]; snprintf(b, sizeof b, "%.17g", CD->getElementAsDouble(i)); A.push_back(std::string(b)); }
            }
            O["tab"] = std::move(A);
            O["esz"] = (int64_t)(CD->getElementByteSize());
          }
        }
        return O;
      }
      if (auto *F = dyn_cast<Function>(B)) return json::Object{{"k", "F"}, {"v", dem(F)}};
      return json::Object{{"k", "u"}};
    }
    return id(V);
  }
  json::Value loc(const Instruction &I) {
    const DILocation *L = I.getDebugLoc().get();
    if (!L) return nullptr;
    json::Array A;
    for (; L; L = L->getInlinedAt()) {
      auto *SP = L->getScope()->getSubprogram();
      std::string N = SP ? (SP->getLinkageName().empty() ? SP->getName().str() : SP->getLinkageName().str()) : "";
      A.push_back(json::Array{diPath(L->getFile()), (int64_t)L->getLine(), demangle(N)});
    }
    return A;
  }
  json::Object fn(Function &F, FunctionAnalysisManager &FAM) {
    json::Object O;
    O["name"] = F.getName().str();
    O["dem"] = dem(&F);
    if (auto *SP = F.getSubprogram()) { O["file"] = diPath(SP->getFile()); O["line"] = (int64_t)SP->getLine(); }
    json::Array As;
    for (auto &A : F.args())
      As.push_back(json::Object{{"id", id(&A)}, {"t", tyName(A.getType())}, {"n", A.getName().str()}, {"sret", A.hasStructRetAttr()}});
    O["args"] = std::move(As);
    DenseMap<const BasicBlock *, int> BId;
    int n = 0;
    for (auto &B : F) BId[&B] = n++;
    json::Array Bs;
    for (auto &B : F) {
      json::Object BO;
      json::Array Is;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I))
          if (II->isLifetimeStartOrEnd() || II->getIntrinsicID() == Intrinsic::assume || II->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl) continue;
        json::Object J;
        J["i"] = id(&I);
        J["o"] = I.getOpcodeName();
        J["t"] = tyName(I.getType());
        json::Array Ops;
        if (auto *P = dyn_cast<PHINode>(&I)) {
          json::Array Fr;
          for (unsigned k = 0; k < P->getNumIncomingValues(); ++k) { Ops.push_back(op(P->getIncomingValue(k))); Fr.push_back(BId[P->getIncomingBlock(k)]); }
          J["from"] = std::move(Fr);
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          MapVector<Value *, APInt> VO; APInt CO(64, 0);
          if (G->collectOffset(DL, 64, VO, CO)) {
            Ops.push_back(op(G->getPointerOperand()));
            json::Array Sc;
            for (auto &KV : VO) { Ops.push_back(op(KV.first)); Sc.push_back(KV.second.getSExtValue()); }
            J["sc"] = std::move(Sc);
            J["off"] = CO.getSExtValue();
          }
        } else if (auto *C = dyn_cast<CallBase>(&I)) {
          for (auto &A : C->args()) Ops.push_back(op(A.get()));
          Value *CV = C->getCalledOperand()->stripPointerCasts();
          if (auto *T = dyn_cast<Function>(CV)) { J["f"] = dem(T); J["tree"] = inTree(T); if (T->doesNotReturn()) J["nr"] = true; }
          else {
            J["fp"] = op(CV);
            if (auto *N = C->getMetadata("pdx.virtual")) {
              std::string Cls = cast<MDString>(N->getOperand(0))->getString().str();
              uint64_t Slot = mdconst::extract<ConstantInt>(N->getOperand(1))->getZExtValue();
              J["vc"] = Cls;
              J["vs"] = (int64_t)Slot;
              auto It = Impl.find({Cls, Slot});
              if (It != Impl.end()) { json::Array A; for (auto &X : It->second) A.push_back(X); J["vi"] = std::move(A); }
            }
          }
          if (C->paramHasAttr(0, Attribute::StructRet)) J["sret"] = true;
          if (C->doesNotReturn()) J["nr"] = true;
        } else if (auto *C = dyn_cast<CmpInst>(&I)) {
          J["p"] = CmpInst::getPredicateName(C->getPredicate());
          for (auto &U : I.operands()) Ops.push_back(op(U.get()));
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
          Ops.push_back(op(S->getCondition()));
          json::Array Cs;
          for (auto &C : S->cases()) Cs.push_back(json::Array{C.getCaseValue()->getSExtValue(), BId[C.getCaseSuccessor()]});
          J["cases"] = std::move(Cs);
          J["def"] = BId[S->getDefaultDest()];
        } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
          if (Br->isConditional()) Ops.push_back(op(Br->getCondition()));
        } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
          J["sz"] = (int64_t)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue();
          std::string TS; raw_string_ostream OS(TS); A->getAllocatedType()->print(OS, false, true);
          J["at"] = TS;
          J["n"] = A->getName().str();
        } else if (isa<ExtractValueInst>(I) || isa<InsertValueInst>(I)) {
          for (auto &U : I.operands()) Ops.push_back(op(U.get()));
          json::Array X;
          for (unsigned k : isa<ExtractValueInst>(I) ? cast<ExtractValueInst>(I).indices() : cast<InsertValueInst>(I).indices()) X.push_back((int64_t)k);
          J["idx"] = std::move(X);
        } else
          for (auto &U : I.operands()) Ops.push_back(op(U.get()));
        if (isa<LoadInst>(I)) J["sz"] = (int64_t)DL.getTypeStoreSize(I.getType()).getFixedValue();
        if (auto *SI = dyn_cast<StoreInst>(&I)) { J["sz"] = (int64_t)DL.getTypeStoreSize(SI->getValueOperand()->getType()).getFixedValue(); J["vt"] = tyName(SI->getValueOperand()->getType()); }
        J["a"] = std::move(Ops);
        auto L = loc(I);
        if (L.getAsArray()) J["l"] = std::move(L);
        Is.push_back(std::move(J));
      }
      BO["ins"] = std::move(Is);
      json::Array Su;
      for (auto *S : successors(&B)) Su.push_back(BId[S]);
      BO["succ"] = std::move(Su);
      Bs.push_back(std::move(BO));
    }
    O["blocks"] = std::move(Bs);
    DominatorTree DT(F);
    LoopInfo LI(DT);
    json::Array Ls;
    DenseMap<const Loop *, int> LId;
    int ln = 0;
    for (auto *L : LI.getLoopsInPreorder()) LId[L] = ln++;
    for (auto *L : LI.getLoopsInPreorder()) {
      json::Array LB, La;
      for (auto *B : L->blocks()) LB.push_back(BId[B]);
      SmallVector<BasicBlock *, 4> Lt; L->getLoopLatches(Lt);
      for (auto *B : Lt) La.push_back(BId[B]);
      Ls.push_back(json::Object{{"h", BId[L->getHeader()]}, {"b", std::move(LB)}, {"la", std::move(La)}, {"par", L->getParentLoop() ? LId[L->getParentLoop()] : -1}});
    }
    O["loops"] = std::move(Ls);
    return O;
  }
};

int main(int argc, char **argv) {
  std::vector<std::string> Specs, Files;
  std::string Out;
  bool AfterDash = false;
  std::string Pipe = "sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa,"
                     "loop(loop-unroll-full),simplifycfg,loop-simplify,lcssa,loop(loop-unroll-full),sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa";
  for (int i = 1; i < argc; ++i) {
    std::string A = argv[i];
    if (AfterDash) { Files.push_back(A); continue; }
    if (A == "--") AfterDash = true;
    else if (A == "--root") Root = argv[++i];
    else if (A == "--max") MaxInsts = std::stoul(argv[++i]);
    else if (A == "--out") Out = argv[++i];
    else if (A == "--pipe") Pipe = argv[++i];
    else if (A == "--noinline") NoInlineRx.push_back(new Regex(argv[++i]));
    else Specs.push_back(A);
  }
  const char *Opts[] = {"pdx", "-unroll-threshold=20000", "-unroll-full-max-count=32", "-unroll-max-upperbound=1"};
  cl::ParseCommandLineOptions(4, Opts);
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = std::make_unique<Module>("all", Ctx);
  Linker Lk(*M);
  for (auto &F : Files) {
    auto N = parseIRFile(F, Err, Ctx);
    if (!N) { Err.print("pdx", errs()); return 3; }
    if (M->getDataLayout().isDefault()) { M->setDataLayout(N->getDataLayout()); M->setTargetTriple(N->getTargetTriple()); }
    if (auto *Mn = N->getFunction("main")) {   // several programs: one name each
      StringRef Src = StringRef(N->getSourceFileName()).rsplit('/').second;
      Mn->setName("main_" + (Src.empty() ? StringRef(N->getSourceFileName()) : Src).split('.').first);
    }
    if (Lk.linkInModule(std::move(N))) { errs() << "pdx: link failed for " << F << "\n"; return 3; }
  }
  // drop optnone/noinline so the pipeline runs; remove exception edges
  for (auto &F : *M) {
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    if (!F.isDeclaration()) dropInvokes(F);
  }
  virtualCalls(*M);
  explicitViews(*M);
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  FunctionPassManager Light, Full;
  if (auto E = PB.parsePassPipeline(Light, "sroa,simplifycfg,early-cse")) { errs() << toString(std::move(E)) << "\n"; return 3; }
  if (auto E = PB.parsePassPipeline(Full, Pipe)) { errs() << toString(std::move(E)) << "\n"; return 3; }

  auto Classes = collectClasses(*M);
  struct Job { Function *F; std::string Cls; GlobalVariable *VT; std::string Kind; bool Inline; };
  std::vector<Job> Jobs;
  std::vector<Function *> All;
  for (auto &F : *M) if (!F.isDeclaration()) All.push_back(&F);
  json::Array ClsOut;
  bool WantCalls = false;
  for (auto &S : Specs) {
    size_t C1 = S.find(':');
    std::string K = S.substr(0, C1), R = S.substr(C1 + 1);
    if (K == "vt") {
      size_t C2 = R.rfind(':');
      std::string Base = R.substr(0, C2);
      std::set<std::string> Ms;
      std::string ML = R.substr(C2 + 1);
      for (auto X : split(ML, ',')) Ms.insert(X.str());
      for (auto &C : Classes) {
        if (!C.Bases.count(Base) && C.Name != Base) continue;
        bool Abstract = false;
        auto Sl = vtSlots(C.VT);
        json::Array Sn;
        for (auto *F : Sl) {
          if (F && F->getName() == "__cxa_pure_virtual") Abstract = true;
          Sn.push_back(F ? dem(F) : "");
        }
        ClsOut.push_back(json::Object{{"name", C.Name}, {"base", Base}, {"abstract", Abstract}, {"slots", std::move(Sn)}});
        if (Abstract) continue;
        for (auto *F : Sl)
          if (F && !F->isDeclaration() && Ms.count(methodOf(dem(F)))) Jobs.push_back({F, C.Name, C.VT, methodOf(dem(F)), true});
      }
    } else if (K == "ctor") {
      for (auto &C : Classes) {
        if (!C.Bases.count(R) && C.Name != R) continue;
        size_t P = C.Name.rfind("::");
        std::string Short = P == std::string::npos ? C.Name : C.Name.substr(P + 2);
        std::string Pre = C.Name + "::" + Short + "(";
        Function *Best = nullptr;
        std::vector<Function *> Cand;
        for (auto *F : All) if (StringRef(dem(F)).starts_with(Pre) && F->getName().contains("C2E")) Cand.push_back(F);
        for (auto *F : Cand) Jobs.push_back({F, C.Name, C.VT, "ctor", true});
        (void)Best;
      }
    } else if (K == "fn" || K == "raw") {
      Regex Rx(R);
      for (auto *F : All)
        if (inTree(F) && Rx.match(dem(F))) {
          if (F->getName().contains("C1E") || F->getName().contains("D1E") || F->getName().contains("D0E")) continue;
          Jobs.push_back({F, "", nullptr, K, K == "fn"});
        }
    } else if (K == "calls") WantCalls = true;
  }
  // Loop hints in the source must not decide which loops are unrolled here.
  for (auto &F : *M)
    for (auto &B : F)
      if (auto *T = B.getTerminator()) T->setMetadata(LLVMContext::MD_loop, nullptr);
  std::error_code EC;
  raw_fd_ostream OS(Out, EC);
  if (EC) { errs() << EC.message() << "\n"; return 3; }
  json::Array Fns;
  // Clone targets first so that inlining always uses pristine bodies.
  for (auto &J : Jobs) {
    Function *Orig = J.F;
    ValueToValueMapTy VM;
    Function *C = CloneFunction(Orig, VM);
    C->setName(Orig->getName() + ".pdx");
    DemCache[C] = dem(Orig);
    if (J.Inline) {
      // the clone's own `this` may be devirtualised
      simplifyLight(*C, FAM, Light);
      inlineAll(*C, J.VT, J.VT != nullptr && J.Kind != "ctor", FAM, Light);
      Full.run(*C, FAM);
      FAM.clear(*C, C->getName());
      // devirtualisation after SROA may expose more
      if (J.VT && J.Kind != "ctor") { inlineAll(*C, J.VT, true, FAM, Light); Full.run(*C, FAM); FAM.clear(*C, C->getName()); }
    } else {
      simplifyLight(*C, FAM, Light);
      LocalOnly = true;
      inlineAll(*C, nullptr, false, FAM, Light);
      LocalOnly = false;
    }
    Dumper D(M->getDataLayout());
    json::Object O = D.fn(*C, FAM);
    O["class"] = J.Cls;
    O["kind"] = J.Kind;
    Fns.push_back(std::move(O));
    FAM.clear(*C, C->getName());
    C->replaceAllUsesWith(PoisonValue::get(C->getType()));
    C->eraseFromParent();
    DemCache.erase(C);
  }
  json::Array Calls;
  if (WantCalls)
    for (auto *F : All) {
      if (!inTree(F)) continue;
      json::Array Cs;
      for (auto &I : instructions(*F))
        if (auto *C = dyn_cast<CallBase>(&I))
          if (auto *T = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts()))
            if (!T->isIntrinsic()) Cs.push_back(dem(T));
      Calls.push_back(json::Object{{"dem", dem(F)}, {"file", diPath(F->getSubprogram()->getFile())}, {"line", (int64_t)F->getSubprogram()->getLine()}, {"calls", std::move(Cs)}});
    }
  json::Array No;
  for (auto &N : Notes) No.push_back(N);
  json::Object Top;
  Top["functions"] = std::move(Fns);
  Top["classes"] = std::move(ClsOut);
  Top["calls"] = std::move(Calls);
  Top["notes"] = std::move(No);
  OS << json::Value(std::move(Top));
  OS.close();
  return 0;
}
