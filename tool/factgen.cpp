// factgen: lower one LLVM module of the analysed sources to JSON facts.
//
//   factgen IN.bc OUT.json [--keep FILE] [--src PREFIX] [--pre PASSES] [--post PASSES]
//
// 1. every defined function that is not named in FILE (the frozen list of
//    anchors = the functions the repository's headers declare) and that is not
//    recursive is inlined into its callers, so that helpers extracted from or
//    folded into an anchor make no difference;
// 2. PRE passes run (mem2reg);
// 3. struct member address computations become calls of pure functions named
//    "fld:STRUCT.MEMBER" so member names survive the later passes;
// 4. POST passes run;
// 5. functions, constant tables, enums and struct layouts are written as JSON.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/ADT/StringSet.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <fstream>
#include <map>
#include <set>
using namespace llvm;

static std::map<std::string, const DICompositeType*> diStruct;

static const DIType* strip(const DIType* T) {
  while (auto* D = dyn_cast_or_null<DIDerivedType>(T)) {
    unsigned t = D->getTag();
    if (t == dwarf::DW_TAG_typedef || t == dwarf::DW_TAG_const_type ||
        t == dwarf::DW_TAG_volatile_type || t == dwarf::DW_TAG_atomic_type ||
        t == dwarf::DW_TAG_restrict_type)
      T = D->getBaseType();
    else
      break;
  }
  return T;
}

static std::string typeName(const DIType* T, int depth = 0) {
  if (!T) return "void";
  if (depth > 6) return "?";
  if (auto* D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return typeName(D->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_reference_type: return typeName(D->getBaseType(), depth + 1) + "&";
    case dwarf::DW_TAG_typedef: {
      const DIType* S = strip(T);
      if (S && isa<DICompositeType>(S) && !S->getName().empty()) return S->getName().str();
      return D->getName().str();
    }
    default: return typeName(D->getBaseType(), depth + 1);
    }
  }
  if (auto* C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) return typeName(C->getBaseType(), depth + 1) + "[]";
    return C->getName().empty() ? "anon" : C->getName().str();
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return T->getName().str();
}

static std::string structBase(StructType* S) {
  std::string n = S->hasName() ? S->getName().str() : "anon";
  for (const char* p : {"struct.", "class.", "union."})
    if (n.rfind(p, 0) == 0) n = n.substr(strlen(p));
  // strip ".123" suffix produced by linking
  size_t d = n.rfind('.');
  if (d != std::string::npos && d + 1 < n.size() &&
      n.find_first_not_of("0123456789", d + 1) == std::string::npos)
    n = n.substr(0, d);
  return n;
}

static const DICompositeType* memberAt(const DICompositeType* C, uint64_t bit, std::string& name,
                                       const DIType** mt) {
  for (auto* E : C->getElements()) {
    auto* M = dyn_cast_or_null<DIDerivedType>(E);
    if (!M || M->getTag() != dwarf::DW_TAG_member || M->isStaticMember()) continue;
    if (M->getOffsetInBits() == bit) {
      name = M->getName().str();
      if (mt) *mt = M->getBaseType();
      const DIType* S = strip(M->getBaseType());
      return dyn_cast_or_null<DICompositeType>(S);
    }
  }
  name = "";
  if (mt) *mt = nullptr;
  return nullptr;
}

static Function* fldFn(Module& M, const std::string& name, Type* PtrTy) {
  std::string fn = "fld:" + name;
  if (Function* F = M.getFunction(fn)) return F;
  FunctionType* FT = FunctionType::get(PtrTy, {PtrTy}, false);
  Function* F = Function::Create(FT, GlobalValue::ExternalLinkage, fn, &M);
  F->setDoesNotAccessMemory();
  F->setDoesNotThrow();
  F->setWillReturn();
  F->setSpeculatable();
  F->addParamAttr(0, Attribute::NoCapture);
  F->addFnAttr(Attribute::NoFree);
  F->addFnAttr(Attribute::NoSync);
  return F;
}

// anonymous structs that are members of a named one, under the name of the member
static std::map<const StructType*, std::pair<const DICompositeType*, std::string>> anonStruct;

static void findAnon(const DataLayout& DL, StructType* S, const DICompositeType* C, const std::string& name) {
  if (S->isOpaque()) return;
  for (unsigned k = 0; k < S->getNumElements(); ++k) {
    auto* E = dyn_cast<StructType>(S->getElementType(k));
    if (!E || !E->hasName() || structBase(E).rfind("anon", 0) != 0 || anonStruct.count(E)) continue;
    std::string nm;
    const DICompositeType* N = memberAt(C, DL.getStructLayout(S)->getElementOffsetInBits(k), nm, nullptr);
    if (!N || nm.empty() || N->getTag() != dwarf::DW_TAG_structure_type) continue;
    anonStruct[E] = {N, name + "." + nm};
    findAnon(DL, E, N, name + "." + nm);
  }
}

static void lowerFields(Module& M) {
  const DataLayout& DL = M.getDataLayout();
  for (StructType* S : M.getIdentifiedStructTypes()) {
    if (!S->hasName()) continue;
    auto it = diStruct.find(structBase(S));
    if (it != diStruct.end()) findAnon(DL, S, it->second, structBase(S));
  }
  Type* PtrTy = PointerType::getUnqual(M.getContext());
  for (Function& F : M) {
    if (F.isDeclaration()) continue;
    std::vector<GetElementPtrInst*> work;
    for (Instruction& I : instructions(F))
      if (auto* G = dyn_cast<GetElementPtrInst>(&I)) work.push_back(G);
    for (auto* G : work) {
      auto* ST = dyn_cast<StructType>(G->getSourceElementType());
      auto* AT = dyn_cast<ArrayType>(G->getSourceElementType());
      if (!ST && !AT) continue;
      if (G->getNumIndices() < 2) continue;
      IRBuilder<> B(G);
      B.SetCurrentDebugLocation(G->getDebugLoc());
      Value* P = G->getPointerOperand();
      Value* I0 = G->getOperand(1);
      Type* T = G->getSourceElementType();
      if (!(isa<ConstantInt>(I0) && cast<ConstantInt>(I0)->isZero())) P = B.CreateGEP(T, P, I0);
      const DICompositeType* C = nullptr;
      if (ST) {
        auto it = diStruct.find(structBase(ST));
        if (it != diStruct.end()) C = it->second;
      }
      std::string curName = ST ? structBase(ST) : "arr";
      if (ST && !C) {
        auto it = anonStruct.find(ST);
        if (it != anonStruct.end()) { C = it->second.first; curName = it->second.second; }
      }
      bool ok = true;
      for (unsigned k = 2; k < G->getNumOperands(); ++k) {
        Value* Ix = G->getOperand(k);
        if (auto* S2 = dyn_cast<StructType>(T)) {
          unsigned idx = cast<ConstantInt>(Ix)->getZExtValue();
          std::string nm;
          const DICompositeType* next = nullptr;
          if (C) {
            uint64_t off = DL.getStructLayout(S2)->getElementOffsetInBits(idx);
            next = memberAt(C, off, nm, nullptr);
          }
          if (nm.empty()) nm = "#" + std::to_string(idx);
          P = B.CreateCall(fldFn(M, curName + "." + nm, PtrTy), {P});
          T = S2->getElementType(idx);
          C = next;
          if (auto* TS = dyn_cast<StructType>(T)) {
            std::string b = structBase(TS);
            curName = (b.rfind("anon", 0) == 0) ? curName + "." + nm : b;
            if (!C) {
              auto it = diStruct.find(b);
              if (it != diStruct.end()) C = it->second;
            }
          }
        } else if (auto* A2 = dyn_cast<ArrayType>(T)) {
          P = B.CreateGEP(A2, P, {B.getInt64(0), Ix});
          T = A2->getElementType();
          if (auto* TS = dyn_cast<StructType>(T)) {
            curName = structBase(TS);
            auto it = diStruct.find(curName);
            C = it != diStruct.end() ? it->second : nullptr;
          }
        } else {
          ok = false;
          break;
        }
      }
      if (!ok) continue;
      if (P == G->getPointerOperand() || isa<GetElementPtrInst>(P)) {
        if (ST) { /* struct chain ending in array element */ }
        if (AT && G->getNumIndices() == 2) continue; // plain array gep: keep
      }
      G->replaceAllUsesWith(P);
      G->eraseFromParent();
    }
  }
}

static json::Value constant(const Constant* C, int depth);
static json::Value ref(const Value* V, const std::map<const Value*, int>& ids) {
  auto it = ids.find(V);
  if (it != ids.end()) return it->second;
  if (auto* C = dyn_cast<Constant>(V)) return constant(C, 0);
  if (isa<MetadataAsValue>(V)) return json::Array{"md"};
  if (isa<InlineAsm>(V)) return json::Array{"asm"};
  return json::Array{"?"};
}

static json::Value constant(const Constant* C, int depth) {
  if (depth > 12) return json::Array{"?"};
  if (auto* I = dyn_cast<ConstantInt>(C)) {
    if (I->getBitWidth() <= 64) return json::Array{"i", I->getSExtValue()};
    return json::Array{"i", 0, "wide"};
  }
  if (auto* F = dyn_cast<ConstantFP>(C)) {
    double d = F->getType()->isDoubleTy() ? F->getValueAPF().convertToDouble() : 0.0;
    if (d != d || d > 1e308 || d < -1e308) return json::Array{"fp", "special"};
    return json::Array{"fp", d};
  }
  if (isa<ConstantPointerNull>(C)) return json::Array{"null"};
  if (isa<UndefValue>(C)) return json::Array{"undef"};
  if (auto* F = dyn_cast<Function>(C)) return json::Array{"f", F->getName()};
  if (auto* G = dyn_cast<GlobalVariable>(C)) {
    if (G->isConstant() && G->hasInitializer())
      if (auto* D = dyn_cast<ConstantDataArray>(G->getInitializer()))
        if (D->isCString()) return json::Array{"s", json::fixUTF8(D->getAsCString())};
    if (G->isConstant() && G->hasInitializer() && isa<ConstantAggregateZero>(G->getInitializer()) &&
        G->getValueType()->isArrayTy() && G->getName().starts_with(".str"))
      return json::Array{"s", ""};
    return json::Array{"g", G->getName()};
  }
  if (auto* E = dyn_cast<ConstantExpr>(C)) {
    json::Array a{"ce", E->getOpcodeName()};
    for (auto& Op : E->operands()) a.push_back(constant(cast<Constant>(Op), depth + 1));
    return a;
  }
  if (isa<ConstantAggregateZero>(C)) return json::Array{"zero"};
  if (auto* D = dyn_cast<ConstantDataSequential>(C)) {
    if (D->isCString()) return json::Array{"s", json::fixUTF8(D->getAsCString())};
    json::Array a{"arr"};
    for (unsigned i = 0; i < D->getNumElements() && i < 4096; ++i)
      a.push_back(constant(D->getElementAsConstant(i), depth + 1));
    return a;
  }
  if (isa<ConstantAggregate>(C)) {
    json::Array a{"arr"};
    for (auto& Op : C->operands()) a.push_back(constant(cast<Constant>(Op), depth + 1));
    return a;
  }
  return json::Array{"?"};
}

static std::string llty(Type* T) {
  std::string s;
  raw_string_ostream os(s);
  T->print(os, false, true);
  return os.str();
}

int main(int argc, char** argv) {
  std::string in, out, keepFile, src = "/repo/", pre = "function(mem2reg)", post = "";
  bool noInline = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--keep") keepFile = argv[++i];
    else if (a == "--src") src = argv[++i];
    else if (a == "--pre") pre = argv[++i];
    else if (a == "--post") post = argv[++i];
    else if (a == "--no-inline") noInline = true;
    else if (in.empty()) in = a;
    else out = a;
  }
  LLVMContext Ctx;
  SMDiagnostic Err;
  std::unique_ptr<Module> M = parseIRFile(in, Err, Ctx);
  if (!M) { Err.print("factgen", errs()); return 2; }

  // ---- debug info: struct layouts and enums
  DebugInfoFinder Fnd;
  Fnd.processModule(*M);
  for (auto* T : Fnd.types())
    if (auto* C = dyn_cast<DICompositeType>(T))
      if ((C->getTag() == dwarf::DW_TAG_structure_type || C->getTag() == dwarf::DW_TAG_class_type ||
           C->getTag() == dwarf::DW_TAG_union_type) &&
          !C->isForwardDecl()) {
        std::string n = C->getName().str();
        if (n.empty()) continue;
        auto& slot = diStruct[n];
        if (!slot) slot = C;
      }
  // typedef'd anonymous structs
  for (auto* T : Fnd.types())
    if (auto* D = dyn_cast<DIDerivedType>(T))
      if (D->getTag() == dwarf::DW_TAG_typedef)
        if (auto* C = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
          if (C->getName().empty() && !diStruct.count(D->getName().str()))
            diStruct[D->getName().str()] = C;

  // ---- inlining
  std::set<std::string> keep;
  if (!keepFile.empty()) {
    std::ifstream f(keepFile);
    std::string l;
    while (std::getline(f, l)) if (!l.empty()) keep.insert(l);
  }
  auto inRepo = [&](Function& F) {
    if (F.isDeclaration()) return false;
    auto* SP = F.getSubprogram();
    if (!SP) return false;
    std::string file = SP->getFilename().str();
    if (file.empty() || file[0] != '/') file = (SP->getDirectory() + "/" + SP->getFilename()).str();
    return file.rfind(src, 0) == 0;
  };
  std::set<Function*> recursive;
  {
    CallGraph CG(*M);
    for (auto I = scc_begin(&CG); !I.isAtEnd(); ++I) {
      if (I.hasCycle())
        for (auto* N : *I) if (N->getFunction()) recursive.insert(N->getFunction());
    }
  }
  for (Function& F : *M) {
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::AlwaysInline);
    if (F.isDeclaration()) continue;
    if (!noInline && inRepo(F) && !keep.count(F.getName().str()) && !recursive.count(&F)) {
      F.addFnAttr(Attribute::AlwaysInline);
    } else
      F.addFnAttr(Attribute::NoInline);
  }
  // keep every original body even after inlining
  for (Function& F : *M)
    if (!F.isDeclaration() && F.hasLocalLinkage()) F.setLinkage(GlobalValue::ExternalLinkage);

  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM);
  PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  auto run = [&](const std::string& p) {
    if (p.empty()) return;
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, p)) { errs() << toString(std::move(E)) << "\n"; exit(2); }
    MPM.run(*M, MAM);
    MAM.clear(); CAM.clear(); FAM.clear(); LAM.clear();
  };
  // before inlining: cloning folds zero-offset member addresses away
  lowerFields(*M);
  MAM.clear(); FAM.clear(); CAM.clear(); LAM.clear();
  if (!noInline) run("always-inline");
  run(pre);
  run(post);
  if (verifyModule(*M, &errs())) { errs() << "factgen: broken module\n"; return 2; }

  json::Object root;
  // ---- enums
  json::Object enums;
  for (auto* T : Fnd.types())
    if (auto* C = dyn_cast<DICompositeType>(T))
      if (C->getTag() == dwarf::DW_TAG_enumeration_type && !C->isForwardDecl()) {
        json::Object e;
        for (auto* E : C->getElements())
          if (auto* En = dyn_cast_or_null<DIEnumerator>(E)) e[En->getName()] = En->getValue().getSExtValue();
        std::string n = C->getName().str();
        if (n.empty()) n = "anon@" + C->getFilename().str() + ":" + std::to_string(C->getLine());
        enums[n] = std::move(e);
      }
  root["enums"] = std::move(enums);
  // ---- structs
  json::Object structs;
  std::function<void(const std::string&, const DICompositeType*)> putStruct = [&](const std::string& n, const DICompositeType* C) {
    std::string file = C->getFilename().str();
    json::Array ms;
    for (auto* E : C->getElements()) {
      auto* D = dyn_cast_or_null<DIDerivedType>(E);
      if (!D || D->getTag() != dwarf::DW_TAG_member) continue;
      const DIType* S = strip(D->getBaseType());
      uint64_t sz = S ? S->getSizeInBits() : 0;
      ms.push_back(json::Array{D->getName(), typeName(D->getBaseType()), (int64_t)(D->getOffsetInBits() / 8), (int64_t)(sz / 8)});
      // members of unnamed types, under the name of the member that has the type
      auto* N = dyn_cast_or_null<DICompositeType>(S);
      if (N && N->getName().empty() && !D->getName().empty() && N->getTag() == dwarf::DW_TAG_structure_type) putStruct(n + "." + D->getName().str(), N);
    }
    structs[n] = json::Object{{"file", file}, {"size", (int64_t)(C->getSizeInBits() / 8)}, {"members", std::move(ms)}};
  };
  for (auto& [n, C] : diStruct) putStruct(n, C);
  root["structs"] = std::move(structs);
  // ---- globals
  json::Object globals;
  for (GlobalVariable& G : M->globals()) {
    if (G.getName().starts_with("llvm.") || G.getName().starts_with(".str")) continue;
    json::Object g;
    g["const"] = G.isConstant();
    g["ty"] = llty(G.getValueType());
    if (G.hasInitializer()) g["init"] = constant(G.getInitializer(), 0);
    SmallVector<DIGlobalVariableExpression*, 1> GVE;
    G.getDebugInfo(GVE);
    if (!GVE.empty()) {
      auto* V = GVE[0]->getVariable();
      g["name"] = V->getName();
      g["file"] = V->getFilename();
      g["line"] = (int64_t)V->getLine();
      g["dity"] = typeName(V->getType());
    }
    globals[G.getName()] = std::move(g);
  }
  root["globals"] = std::move(globals);
  // ---- functions
  json::Object fns;
  json::Array decls;
  for (Function& F : *M) {
    if (F.isDeclaration()) {
      if (!F.getName().starts_with("llvm.") && !F.getName().starts_with("fld:")) decls.push_back(F.getName());
      continue;
    }
    if (!inRepo(F)) continue;
    auto* SP = F.getSubprogram();
    json::Object jf;
    std::string file = SP->getFilename().str();
    if (file.empty() || file[0] != '/') file = (SP->getDirectory() + "/" + SP->getFilename()).str();
    jf["file"] = file;
    jf["line"] = (int64_t)SP->getLine();
    jf["src"] = SP->getName();
    jf["ret"] = llty(F.getReturnType());
    jf["anchor"] = keep.count(F.getName().str()) > 0;
    jf["rec"] = recursive.count(&F) > 0;
    jf["addr"] = F.hasAddressTaken();
    auto TA = SP->getType()->getTypeArray();
    jf["rety"] = typeName(TA.size() ? TA[0] : nullptr);
    std::map<const Value*, int> ids;
    int n = 0;
    json::Array args;
    unsigned ai = 0;
    for (Argument& A : F.args()) {
      ids[&A] = n;
      std::string ty = (ai + 1 < TA.size()) ? typeName(TA[ai + 1]) : "?";
      args.push_back(json::Array{n, A.getName(), llty(A.getType()), ty});
      ++n; ++ai;
    }
    std::map<const BasicBlock*, int> bid;
    int bn = 0;
    for (BasicBlock& B : F) bid[&B] = bn++;
    for (Instruction& I : instructions(F)) if (!isa<DbgInfoIntrinsic>(I)) ids[&I] = n++;
    // variable names
    std::map<const Value*, std::pair<std::string, std::string>> vname;
    for (Instruction& I : instructions(F)) {
      if (auto* D = dyn_cast<DbgVariableIntrinsic>(&I)) {
        if (D->getNumVariableLocationOps() == 1)
          if (Value* V = D->getVariableLocationOp(0))
            if (ids.count(V) && !vname.count(V))
              vname[V] = {D->getVariable()->getName().str(), typeName(D->getVariable()->getType())};
      }
    }
    jf["args"] = std::move(args);
    json::Object names;
    for (auto& [V, p] : vname) names[std::to_string(ids[V])] = json::Array{p.first, p.second};
    jf["names"] = std::move(names);
    json::Array blocks;
    for (BasicBlock& B : F) {
      json::Array insts;
      for (Instruction& I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        json::Object o;
        o["id"] = ids[&I];
        o["op"] = I.getOpcodeName();
        o["ty"] = llty(I.getType());
        if (const DebugLoc& L = I.getDebugLoc()) {
          o["l"] = (int64_t)L.getLine();
          auto* Sc = L->getScope()->getSubprogram();
          if (Sc && Sc != SP) o["in"] = Sc->getName();
          if (L->getInlinedAt()) {
            const DILocation* R = L.get();
            while (R->getInlinedAt()) R = R->getInlinedAt();
            o["il"] = (int64_t)R->getLine();
          }
        }
        json::Array ops;
        if (auto* C = dyn_cast<CallBase>(&I)) {
          const Value* callee = C->getCalledOperand()->stripPointerCasts();
          o["callee"] = ref(callee, ids);
          for (auto& A : C->args()) ops.push_back(ref(A.get(), ids));
          if (auto* Inv = dyn_cast<InvokeInst>(&I)) {
            o["succ"] = json::Array{bid[Inv->getNormalDest()], bid[Inv->getUnwindDest()]};
          }
        } else if (auto* P = dyn_cast<PHINode>(&I)) {
          for (unsigned k = 0; k < P->getNumIncomingValues(); ++k)
            ops.push_back(json::Array{"phi", bid[P->getIncomingBlock(k)], ref(P->getIncomingValue(k), ids)});
        } else if (auto* Br = dyn_cast<BranchInst>(&I)) {
          if (Br->isConditional()) {
            ops.push_back(ref(Br->getCondition(), ids));
            o["succ"] = json::Array{bid[Br->getSuccessor(0)], bid[Br->getSuccessor(1)]};
          } else
            o["succ"] = json::Array{bid[Br->getSuccessor(0)]};
        } else if (auto* S = dyn_cast<SwitchInst>(&I)) {
          ops.push_back(ref(S->getCondition(), ids));
          json::Array cs;
          for (auto& c : S->cases())
            cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]});
          o["cases"] = std::move(cs);
          o["def"] = bid[S->getDefaultDest()];
        } else {
          for (auto& Op : I.operands()) ops.push_back(ref(Op.get(), ids));
        }
        if (auto* C = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(C->getPredicate());
        if (auto* A = dyn_cast<AllocaInst>(&I)) o["aty"] = llty(A->getAllocatedType());
        if (auto* B = dyn_cast<OverflowingBinaryOperator>(&I)) { if (B->hasNoSignedWrap()) o["nsw"] = 1; }
        if (auto* X = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (unsigned k : X->indices()) ix.push_back((int64_t)k); o["ix"] = std::move(ix); }
        if (auto* G = dyn_cast<GetElementPtrInst>(&I)) o["gty"] = llty(G->getSourceElementType());
        if (auto* A = dyn_cast<AtomicRMWInst>(&I)) o["rmw"] = AtomicRMWInst::getOperationName(A->getOperation());
        if (auto* L = dyn_cast<LoadInst>(&I)) if (L->isAtomic()) o["atomic"] = true;
        if (auto* S = dyn_cast<StoreInst>(&I)) if (S->isAtomic()) o["atomic"] = true;
        o["a"] = std::move(ops);
        insts.push_back(std::move(o));
      }
      blocks.push_back(std::move(insts));
    }
    jf["blocks"] = std::move(blocks);
    fns[F.getName()] = std::move(jf);
  }
  root["fns"] = std::move(fns);
  root["decls"] = std::move(decls);
  std::error_code EC;
  raw_fd_ostream os(out, EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  os << json::Value(std::move(root));
  return 0;
}
