// nsa: normalise a witness module and dump it as JSON for the analyses in /verif/sa.
//
//   nsa in.bc out.json [keep-prefix...]
//
// 1. every defined function whose name does not start with "wit_" (or another
//    keep-prefix) becomes internal;
// 2. every *declared* function "evt_*" is an event: it touches no memory of the
//    program (other than what it is given a pointer to) and does not unwind ("evtx_*": may unwind);
// 3. the module is normalised with LLVM's O2 pipeline and an unlimited inliner
//    (no vectorisation, no runtime unrolling), so that extracting a helper,
//    reordering pure statements or renaming things leaves the same program;
// 4. the result is dumped instruction by instruction with source locations.
#include <llvm/Analysis/InlineCost.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>

#include <map>
#include <string>
#include <vector>

using namespace llvm;

static std::string typeStr(Type *T)
{
  std::string s;
  raw_string_ostream os(s);
  T->print(os, false, true);
  return os.str();
}

struct Dumper
{
  Module &M;
  DataLayout const &DL;
  json::OStream &J;
  std::map<Value const*, int> ids;
  std::map<GlobalVariable const*, int> globals;

  Dumper(Module &M, json::OStream &J) : M(M), DL(M.getDataLayout()), J(J) { }

  int id(Value const *V)
  {
    auto it = ids.find(V);
    if (it != ids.end()) return it->second;
    int n = ids.size();
    ids[V] = n;
    return n;
  }

  void value(Value *V)
  {
    if (auto *C = dyn_cast<ConstantInt>(V))
    {
      SmallString<32> s;
      C->getValue().toString(s, 10, false);
      J.array([&] { J.value("i"); J.value(s.str()); J.value((int64_t)C->getBitWidth()); });
    }
    else if (isa<ConstantPointerNull>(V))
      J.array([&] { J.value("null"); });
    else if (isa<UndefValue>(V))
      J.array([&] { J.value("undef"); J.value(typeStr(V->getType())); });
    else if (auto *F = dyn_cast<Function>(V))
      J.array([&] { J.value("fn"); J.value(F->getName()); });
    else if (auto *G = dyn_cast<GlobalVariable>(V))
      J.array([&] { J.value("g"); J.value(G->getName()); });
    else if (auto *A = dyn_cast<GlobalAlias>(V))
      value(A->getAliasee());
    else if (auto *GEP = dyn_cast<GEPOperator>(V); GEP && isa<Constant>(V))
    {
      APInt Off(64, 0);
      if (GEP->accumulateConstantOffset(DL, Off))
        J.array([&] { J.value("off"); value(GEP->getPointerOperand()); J.value(Off.getSExtValue()); });
      else
        J.array([&] { J.value("const"); J.value("gep"); });
    }
    else if (auto *CE = dyn_cast<ConstantExpr>(V))
    {
      J.array([&] { J.value("ce"); J.value(CE->getOpcodeName());
        J.value(typeStr(CE->getType()));
        for (auto &Op : CE->operands()) value(Op.get()); });
    }
    else if (auto *CF = dyn_cast<ConstantFP>(V))
    {
      SmallString<32> s;
      CF->getValueAPF().toString(s);
      J.array([&] { J.value("f"); J.value(s.str()); });
    }
    else if (isa<ConstantAggregateZero>(V))
      J.array([&] { J.value("zero"); J.value(typeStr(V->getType())); });
    else if (auto *CA = dyn_cast<ConstantAggregate>(V))
    {
      J.array([&] { J.value("agg"); J.value(typeStr(V->getType()));
        for (auto &Op : CA->operands()) value(Op.get()); });
    }
    else if (auto *CD = dyn_cast<ConstantDataSequential>(V))
    {
      J.array([&] { J.value("agg"); J.value(typeStr(V->getType()));
        for (unsigned i = 0; i < CD->getNumElements(); ++i) value(CD->getElementAsConstant(i)); });
    }
    else if (isa<Constant>(V))
      J.array([&] { J.value("const"); J.value(typeStr(V->getType())); });
    else if (isa<MetadataAsValue>(V))
      J.array([&] { J.value("md"); });
    else if (isa<InlineAsm>(V))
      J.array([&] { J.value("asm"); });
    else if (auto *BB = dyn_cast<BasicBlock>(V))
      J.array([&] { J.value("bb"); J.value(id(BB)); });
    else if (auto *A = dyn_cast<Argument>(V))
      J.array([&] { J.value("a"); J.value((int64_t)A->getArgNo()); });
    else
      J.array([&] { J.value("v"); J.value(id(V)); });
  }

  // positions are kept once: frames, chains of frames (innermost first)
  std::map<DILocation const*, int> chainIds;
  std::map<std::string, int> frameIds;
  std::vector<std::tuple<std::string, int64_t, std::string>> frames;
  std::vector<std::vector<int>> chains;

  void loc(DebugLoc const &D)
  {
    auto known = chainIds.find(D.get());
    if (known == chainIds.end())
    {
      std::vector<int> chain;
      for (DILocation const *L = D.get(); L; L = L->getInlinedAt())
      {
        std::string f = L->getFilename().str();
        if (!f.empty() && f[0] != '/') f = L->getDirectory().str() + "/" + f;
        std::string n;
        if (auto *SP = L->getScope()->getSubprogram()) n = SP->getName().str();
        auto r = frameIds.emplace(f + ":" + std::to_string(L->getLine()) + ":" + n, (int)frames.size());
        if (r.second) frames.emplace_back(f, (int64_t)L->getLine(), n);
        chain.push_back(r.first->second);
      }
      known = chainIds.emplace(D.get(), (int)chains.size()).first;
      chains.push_back(chain);
    }
    J.attribute("loc", known->second);
  }

  void positions()
  {
    J.attributeArray("frames", [&] {
      for (auto &F : frames) J.array([&] { J.value(std::get<0>(F)); J.value(std::get<1>(F)); J.value(std::get<2>(F)); });
    });
    J.attributeArray("chains", [&] { for (auto &C : chains) J.array([&] { for (int i : C) J.value(i); }); });
  }

  void inst(Instruction &I)
  {
    J.object([&] {
      J.attribute("op", I.getOpcodeName());
      if (!I.getType()->isVoidTy())
      {
        J.attribute("id", id(&I));
        J.attribute("ty", typeStr(I.getType()));
        if (I.getType()->isSized())
          J.attribute("sz", (int64_t)DL.getTypeStoreSize(I.getType()).getFixedValue());
      }
      if (auto *C = dyn_cast<CmpInst>(&I))
        J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
      if (auto *O = dyn_cast<OverflowingBinaryOperator>(&I))
      {
        if (O->hasNoSignedWrap()) J.attribute("nsw", true);
        if (O->hasNoUnsignedWrap()) J.attribute("nuw", true);
      }
      if (auto *G = dyn_cast<GetElementPtrInst>(&I))
      {
        MapVector<Value*, APInt> Vars;
        APInt Off(64, 0);
        if (G->collectOffset(DL, 64, Vars, Off))
        {
          J.attribute("goff", Off.getSExtValue());
          J.attributeArray("gvars", [&] {
            for (auto &P : Vars)
              J.array([&] { value(P.first); J.value(P.second.getSExtValue()); });
          });
        }
        J.attributeArray("ops", [&] { value(G->getPointerOperand()); });
      }
      else if (auto *P = dyn_cast<PHINode>(&I))
      {
        J.attributeArray("in", [&] {
          for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
            J.array([&] { J.value(id(P->getIncomingBlock(i))); value(P->getIncomingValue(i)); });
        });
      }
      else if (auto *B = dyn_cast<BranchInst>(&I))
      {
        J.attributeArray("ops", [&] { if (B->isConditional()) value(B->getCondition()); });
        J.attributeArray("succ", [&] {
          for (unsigned i = 0; i < B->getNumSuccessors(); ++i) J.value(id(B->getSuccessor(i)));
        });
      }
      else if (auto *S = dyn_cast<SwitchInst>(&I))
      {
        J.attributeArray("ops", [&] { value(S->getCondition()); });
        J.attribute("default", id(S->getDefaultDest()));
        J.attributeArray("cases", [&] {
          for (auto &C : S->cases())
            J.array([&] { value(C.getCaseValue()); J.value(id(C.getCaseSuccessor())); });
        });
      }
      else if (auto *CB = dyn_cast<CallBase>(&I))
      {
        Value *Callee = CB->getCalledOperand()->stripPointerCasts();
        if (auto *F = dyn_cast<Function>(Callee))
        {
          J.attribute("callee", F->getName());
          if (F->isIntrinsic()) J.attribute("intrinsic", true);
        }
        else
          J.attributeArray("ind", [&] { value(Callee); });
        J.attributeArray("ops", [&] { for (auto &A : CB->args()) value(A.get()); });
        J.attributeArray("sret", [&] {
          for (unsigned i = 0; i < CB->arg_size(); ++i)
            if (CB->paramHasAttr(i, Attribute::StructRet)) J.value((int64_t)i);
        });
        if (CB->doesNotAccessMemory()) J.attribute("nomem", true);
        else if (CB->onlyReadsMemory()) J.attribute("ro", true);
        if (CB->doesNotThrow()) J.attribute("nounwind", true);
        if (CB->doesNotReturn()) J.attribute("noreturn", true);
        if (auto *Iv = dyn_cast<InvokeInst>(&I))
        {
          J.attribute("normal", id(Iv->getNormalDest()));
          J.attribute("unwind", id(Iv->getUnwindDest()));
        }
      }
      else
      {
        J.attributeArray("ops", [&] {
          for (auto &O : I.operands()) value(O.get());
        });
        if (auto *A = dyn_cast<AllocaInst>(&I))
          if (auto Sz = A->getAllocationSize(DL))
            J.attribute("asz", (int64_t)Sz->getFixedValue());
        if (auto *St = dyn_cast<StoreInst>(&I))
        {
          J.attribute("sz", (int64_t)DL.getTypeStoreSize(St->getValueOperand()->getType()).getFixedValue());
          J.attribute("sty", typeStr(St->getValueOperand()->getType()));
        }
        if (auto *R = dyn_cast<AtomicRMWInst>(&I))
          J.attribute("rmw", AtomicRMWInst::getOperationName(R->getOperation()));
        if (auto *E = dyn_cast<ExtractValueInst>(&I))
          J.attributeArray("idx", [&] { for (auto i : E->indices()) J.value((int64_t)i); });
        if (auto *E = dyn_cast<InsertValueInst>(&I))
          J.attributeArray("idx", [&] { for (auto i : E->indices()) J.value((int64_t)i); });
        if (isa<TruncInst>(I) || isa<ZExtInst>(I) || isa<SExtInst>(I))
          J.attribute("sty", typeStr(I.getOperand(0)->getType()));
        if (auto *L = dyn_cast<LandingPadInst>(&I))
        {
          J.attribute("cleanup", L->isCleanup());
          J.attribute("clauses", (int64_t)L->getNumClauses());
        }
      }
      if (I.getDebugLoc()) loc(I.getDebugLoc());
    });
  }

  void global(GlobalVariable &G)
  {
    if (!G.hasInitializer() || !G.isConstant()) return;
    Constant *C = G.getInitializer();
    auto sz = DL.getTypeAllocSize(C->getType()).getFixedValue();
    if (sz > 65536) return;
    // flatten to bytes when it is plain data
    std::vector<int> bytes(sz, 0);
    bool ok = true;
    std::function<void(Constant*, uint64_t)> go = [&](Constant *C, uint64_t at)
    {
      if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
      if (auto *I = dyn_cast<ConstantInt>(C))
      {
        APInt V = I->getValue();
        unsigned n = (V.getBitWidth() + 7) / 8;
        for (unsigned b = 0; b < n; ++b)
          bytes[at + b] = V.lshr(8 * b).getLoBits(8).getLimitedValue(255);
        if (V.getBitWidth() % 8) {}
        return;
      }
      if (auto *D = dyn_cast<ConstantDataSequential>(C))
      {
        auto es = D->getElementByteSize();
        for (unsigned i = 0; i < D->getNumElements(); ++i) go(D->getElementAsConstant(i), at + i * es);
        return;
      }
      if (auto *A = dyn_cast<ConstantArray>(C))
      {
        auto es = DL.getTypeAllocSize(A->getType()->getElementType()).getFixedValue();
        for (unsigned i = 0; i < A->getNumOperands(); ++i) go(A->getOperand(i), at + i * es);
        return;
      }
      if (auto *S = dyn_cast<ConstantStruct>(C))
      {
        auto *L = DL.getStructLayout(S->getType());
        for (unsigned i = 0; i < S->getNumOperands(); ++i) go(S->getOperand(i), at + L->getElementOffset(i).getFixedValue());
        return;
      }
      ok = false;
    };
    go(C, 0);
    J.object([&] {
      J.attribute("name", G.getName());
      J.attribute("size", (int64_t)sz);
      if (ok) J.attributeArray("bytes", [&] { for (int b : bytes) J.value(b); });
    });
  }

  void run()
  {
    J.object([&] {
      J.attributeArray("globals", [&] { for (auto &G : M.globals()) global(G); });
      J.attributeArray("functions", [&] {
        for (auto &F : M)
        {
          if (F.isDeclaration()) continue;
          ids.clear();
          J.object([&] {
            J.attribute("name", F.getName());
            J.attribute("demangled", demangle(F.getName().str()));
            if (auto *SP = F.getSubprogram())
              J.attributeArray("at", [&] { J.value(SP->getFilename()); J.value((int64_t)SP->getLine()); });
            J.attributeArray("args", [&] {
              for (auto &A : F.args())
                J.object([&] { J.attribute("name", A.getName()); J.attribute("ty", typeStr(A.getType()));
                  if (A.hasStructRetAttr()) J.attribute("sret", true);
                  if (A.hasByValAttr()) J.attribute("byval", true); });
            });
            J.attribute("ret", typeStr(F.getReturnType()));
            J.attributeArray("blocks", [&] {
              for (auto &BB : F)
                J.object([&] {
                  J.attribute("id", id(&BB));
                  J.attributeArray("insts", [&] {
                    for (auto &I : BB)
                    {
                      if (isa<DbgInfoIntrinsic>(I)) continue;
                      inst(I);
                    }
                  });
                });
            });
          });
        }
      });
      positions();
      J.attributeArray("decls", [&] {
        for (auto &F : M)
          if (F.isDeclaration() && !F.isIntrinsic())
            J.array([&] { J.value(F.getName()); J.value(demangle(F.getName().str())); });
      });
    });
  }
};

int main(int argc, char **argv)
{
  if (argc < 3) { errs() << "usage: nsa in.bc out.json [-O0|-noinline] [keep-prefix...]\n"; return 2; }
  {
    // generic scalar loops over small constant ranges are still fully unrolled
    std::vector<const char*> a = {"nsa", "-inline-threshold=1000000", "-inlinehint-threshold=1000000",
      "-inlinecold-threshold=1000000", "-inline-cold-callsite-threshold=1000000",
      "-inline-savings-multiplier=1000", "-unroll-runtime=false", "-unroll-allow-partial=false",
      "-unroll-allow-peeling=false", "-enable-split-backedge-in-load-pre=false",
      "-enable-load-pre=true", "-disable-loop-idiom-all",
      "-max-num-inline-blocks=100000",
      "-two-entry-phi-node-folding-threshold=1"};
    // ignore options this LLVM does not know
    std::vector<const char*> b = {"nsa"};
    auto &opts = cl::getRegisteredOptions();
    for (size_t i = 1; i < a.size(); ++i)
    {
      StringRef s = StringRef(a[i]).drop_front(1).split('=').first;
      if (opts.count(s)) b.push_back(a[i]);
    }
    cl::ParseCommandLineOptions(b.size(), b.data());
  }
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("nsa", errs()); return 2; }
  bool opt = true, heap = false;
  std::vector<std::string> keep = {"wit_"};
  for (int i = 3; i < argc; ++i)
  {
    std::string s = argv[i];
    if (s == "-O0") opt = false;
    else if (s == "-heap") heap = true;
    else keep.push_back(s);
  }
  // heap allocation and release as opaque calls the optimiser neither removes nor reasons about
  if (heap)
  {
    for (auto &F : *M)
    {
      if (!F.isDeclaration()) continue;
      StringRef n = F.getName();
      bool isnew = n == "_Znwm" || n == "_Znam" || n.starts_with("_ZnwmSt") || n.starts_with("_ZnwmRK"), isdel = n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv");
      if (!isnew && !isdel) continue;
      std::string to = (isnew ? "nsa_new" : "nsa_delete") + std::string(n.drop_front(2));
      for (auto *U : F.users())
        if (auto *C = dyn_cast<CallBase>(U)) C->setAttributes(AttributeList());
      F.setAttributes(AttributeList());
      if (isdel) F.setDoesNotThrow();
      F.setName(to);
    }
  }
  // mark event functions
  for (auto &F : *M)
  {
    std::string d = demangle(F.getName().str());
    auto base = StringRef(d).split('(').first.split('<').first;
    base = base.rsplit(' ').second.empty() ? base : base.rsplit(' ').second;
    StringRef leaf = base.rsplit("::").second.empty() ? base : base.rsplit("::").second;
    if (F.isDeclaration())
    {
      if (leaf.starts_with("evt_") || leaf.starts_with("evtx_"))
      {
        bool ptr = false;
        for (auto &A : F.args()) if (A.getType()->isPointerTy()) ptr = true;
        F.setMemoryEffects(ptr ? MemoryEffects::inaccessibleOrArgMemOnly()
                               : MemoryEffects::inaccessibleMemOnly());
        F.addFnAttr(Attribute::WillReturn);
        if (leaf.starts_with("evt_")) F.setDoesNotThrow();
      }
      continue;
    }
    F.removeFnAttr(Attribute::OptimizeNone);
    bool k = false;
    for (auto &p : keep) if (F.getName().starts_with(p)) k = true;
    if (!k)
    {
      if (F.hasAvailableExternallyLinkage()) continue;
      F.setComdat(nullptr);
      F.setLinkage(GlobalValue::InternalLinkage);
      F.setVisibility(GlobalValue::DefaultVisibility);
      F.removeFnAttr(Attribute::NoInline);
    }
    else F.addFnAttr(Attribute::NoInline);
  }
  if (opt)
  {
    PipelineTuningOptions PTO;
    PTO.LoopVectorization = false;
    PTO.SLPVectorization = false;
    PTO.LoopInterleaving = false;
    PTO.MergeFunctions = false;
    PTO.InlinerThreshold = 1000000;
    for (int round = 0; round < 2; ++round)
    {
      PassBuilder PB(nullptr, PTO);
      LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
      PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM);
      PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
      PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
      ModulePassManager MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O2);
      MPM.addPass(GlobalDCEPass());
      MPM.run(*M, MAM);
    }
  }
  std::error_code EC;
  raw_fd_ostream OS(argv[2], EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  json::OStream J(OS);
  Dumper D(*M, J);
  D.run();
  OS << "\n";
  return 0;
}
