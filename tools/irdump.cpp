// Dumps an LLVM module (built from /repo with -O0 -g, then mem2reg) as JSON for
// the Python analyses. It decides nothing: it only makes the resolved program
// (callees, struct fields by name, control flow, source positions) available.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
using json::Array;
using json::Object;
using JV = json::Value;

static const DataLayout *DL;
// struct name -> members (offset bits, name, type)
struct Mem { uint64_t off; uint64_t size; std::string name; std::string type; };
static std::map<std::string, std::vector<Mem>> DIStructs;

static std::string diTypeName(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 12) return "...";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type:
      return diTypeName(D->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_reference_type:
    case dwarf::DW_TAG_rvalue_reference_type:
      return diTypeName(D->getBaseType(), depth + 1) + "&";
    case dwarf::DW_TAG_const_type: {
      std::string b = diTypeName(D->getBaseType(), depth + 1);
      // "T*const" for a constant pointer, "const T" otherwise
      return !b.empty() && b.back() == '*' ? b + "const" : "const " + b;
    }
    case dwarf::DW_TAG_volatile_type:
    case dwarf::DW_TAG_restrict_type:
      return diTypeName(D->getBaseType(), depth + 1);
    case dwarf::DW_TAG_typedef: {
      // Resolve to the underlying type, except named opaque ones.
      StringRef N = D->getName();
      if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
        if (C->getName().empty()) return N.str();
      if (N == "FILE" || N == "int64_t" || N == "bool") return N.str();
      return diTypeName(D->getBaseType(), depth + 1);
    }
    default:
      return diTypeName(D->getBaseType(), depth + 1);
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type)
      return diTypeName(C->getBaseType(), depth + 1) + "[]";
    std::string N = C->getName().str();
    if (N.empty()) N = "anon@" + std::to_string(C->getLine());
    return N;
  }
  if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().str();
  if (isa<DISubroutineType>(T)) return "fn";
  return "?";
}

static std::string structName(const StructType *ST) {
  if (!ST->hasName()) return "";
  std::string n = ST->getName().str();
  for (const char *p : {"struct.", "class.", "union."})
    if (StringRef(n).starts_with(p)) { n = n.substr(strlen(p)); break; }
  // strip .NN suffix made by linking
  size_t dot = n.rfind('.');
  if (dot != std::string::npos && dot + 1 < n.size() &&
      n.find_first_not_of("0123456789", dot + 1) == std::string::npos)
    n = n.substr(0, dot);
  return n;
}

static std::string fieldName(const StructType *ST, unsigned idx) {
  std::string sn = structName(ST);
  auto it = DIStructs.find(sn);
  const StructLayout *SL = DL->getStructLayout(const_cast<StructType *>(ST));
  uint64_t off = SL->getElementOffset(idx).getFixedValue() * 8;
  if (it != DIStructs.end())
    for (auto &m : it->second)
      if (m.off == off) return sn + "." + m.name;
  return sn + ".#" + std::to_string(idx);
}

static std::string tyStr(Type *T) {
  if (auto *ST = dyn_cast<StructType>(T)) {
    std::string n = structName(ST);
    return n.empty() ? "struct" : "struct " + n;
  }
  if (auto *AT = dyn_cast<ArrayType>(T))
    return "[" + std::to_string(AT->getNumElements()) + " x " +
           tyStr(AT->getElementType()) + "]";
  std::string s;
  raw_string_ostream os(s);
  T->print(os, false, true);
  return os.str();
}

struct FnDump {
  const Function &F;
  std::map<const llvm::Value *, int> ids;
  std::map<const BasicBlock *, int> bbs;
  FnDump(const Function &F) : F(F) {
    int n = 0;
    for (auto &BB : F) {
      bbs[&BB] = bbs.size();
      for (auto &I : BB)
        if (!isa<DbgInfoIntrinsic>(I)) ids[&I] = n++;
    }
  }
  JV operand(const llvm::Value *V, int depth = 0) {
    if (auto *I = dyn_cast<Instruction>(V)) return ids.at(I);
    if (auto *A = dyn_cast<Argument>(V))
      return "a" + std::to_string(A->getArgNo());
    if (auto *Fn = dyn_cast<Function>(V)) return "f:" + Fn->getName().str();
    if (auto *GA = dyn_cast<GlobalAlias>(V)) return operand(GA->getAliasee());
    if (auto *G = dyn_cast<GlobalVariable>(V)) {
      if (G->isConstant() && G->hasInitializer())
        if (auto *CD = dyn_cast<ConstantDataSequential>(G->getInitializer()))
          if (CD->isString()) {
            StringRef s = CD->getAsString();
            if (!s.empty() && s.back() == 0) s = s.drop_back();
            return "s:" + json::fixUTF8(s);
          }
      if (G->isConstant() && G->hasInitializer() &&
          isa<ConstantAggregateZero>(G->getInitializer()) &&
          G->getValueType()->isArrayTy() &&
          G->getValueType()->getArrayElementType()->isIntegerTy(8))
        return "s:";
      return "g:" + G->getName().str();
    }
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      if (C->getBitWidth() <= 64) return "c:" + std::to_string(C->getSExtValue());
      return "c:big";
    }
    if (isa<ConstantPointerNull>(V)) return "null";
    if (isa<UndefValue>(V)) return "undef";
    if (auto *C = dyn_cast<ConstantFP>(V)) {
      std::string s; raw_string_ostream os(s);
      C->getValueAPF().print(os); return "fp:" + StringRef(os.str()).trim().str();
    }
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      Object o;
      o["ce"] = CE->getOpcodeName();
      Array ops;
      for (auto &Op : CE->operands()) ops.push_back(operand(Op, depth + 1));
      o["ops"] = std::move(ops);
      if (auto *G = dyn_cast<GEPOperator>(CE)) o["path"] = gepPath(G);
      return o;
    }
    return "k";
  }
  Array gepPath(const GEPOperator *G) {
    Array p;
    bool first = true;
    for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
      if (StructType *ST = it.getStructTypeOrNull()) {
        unsigned idx = cast<ConstantInt>(it.getOperand())->getZExtValue();
        p.push_back(Object{{"f", fieldName(ST, idx)}});
      } else {
        Object o;
        o["i"] = operand(it.getOperand());
        if (first) o["e"] = tyStr(G->getSourceElementType());
        p.push_back(std::move(o));
      }
      first = false;
    }
    return p;
  }
  JV loc(const Instruction &I) {
    if (const DILocation *L = I.getDebugLoc().get())
      return Array{L->getFilename(), (int64_t)L->getLine(), (int64_t)L->getColumn()};
    return nullptr;
  }
  Object run() {
    Object o;
    o["name"] = F.getName();
    std::string plain = F.getName().str();
    plain = plain.substr(0, plain.find("@@"));
    std::string dem = demangle(plain);
    if (dem != F.getName()) o["dem"] = dem;
    o["internal"] = F.hasLocalLinkage();
    o["linkonce"] = F.hasLinkOnceLinkage() || F.hasWeakLinkage();
    o["noreturn"] = F.doesNotReturn();
    o["vararg"] = F.isVarArg();
    o["decl"] = F.isDeclaration();
    o["retty"] = tyStr(F.getReturnType());
    if (auto *SP = F.getSubprogram()) {
      o["file"] = SP->getFilename();
      o["line"] = (int64_t)SP->getLine();
      if (auto *ST = SP->getType()) {
        Array t;
        for (auto *T : ST->getTypeArray()) t.push_back(diTypeName(T));
        if (t.empty()) t.push_back("void");
        o["sig"] = std::move(t);
      }
    }
    Array ps;
    for (auto &A : F.args()) {
      std::string nm = A.getName().str();
      ps.push_back(Object{{"name", nm}, {"ty", tyStr(A.getType())}});
    }
    o["params"] = std::move(ps);
    if (F.isDeclaration()) return o;
    Array blocks;
    Object names;
    std::map<std::string, std::string> vtypes;
    for (auto &BB : F) {
      Array insts;
      for (auto &I : BB) {
        if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
          auto *V = D->getVariable();
          for (llvm::Value *LV : D->location_ops()) {
            if (!LV) continue;
            std::string key;
            if (auto *LI = dyn_cast<Instruction>(LV)) { if (ids.count(LI)) key = std::to_string(ids[LI]); }
            else if (auto *A = dyn_cast<Argument>(LV)) key = "a" + std::to_string(A->getArgNo());
            if (!key.empty() && !names.get(key)) {
              names[key] = Array{V->getName(), diTypeName(V->getType())};
            }
          }
          continue;
        }
        if (isa<DbgInfoIntrinsic>(I)) continue;
        Object io;
        io["id"] = ids[&I];
        io["op"] = I.getOpcodeName();
        io["ty"] = tyStr(I.getType());
        JV l = loc(I);
        if (l.kind() != JV::Null) io["loc"] = l;
        if (auto *PN = dyn_cast<PHINode>(&I)) {
          Array inc;
          for (unsigned k = 0; k < PN->getNumIncomingValues(); k++)
            inc.push_back(Array{operand(PN->getIncomingValue(k)), bbs[PN->getIncomingBlock(k)]});
          io["inc"] = std::move(inc);
        } else if (auto *CB = dyn_cast<CallBase>(&I)) {
          io["op"] = "call";
          const llvm::Value *cal = CB->getCalledOperand()->stripPointerCasts();
          io["callee"] = operand(cal);
          Array args;
          for (auto &A : CB->args()) args.push_back(operand(A));
          io["args"] = std::move(args);
          if (CB->doesNotReturn()) io["noreturn"] = true;
          if (auto *II = dyn_cast<InvokeInst>(&I)) {
            io["succ"] = Array{bbs[II->getNormalDest()]};
          }
        } else if (auto *B = dyn_cast<BranchInst>(&I)) {
          Array s;
          for (unsigned k = 0; k < B->getNumSuccessors(); ++k)
            s.push_back(bbs[B->getSuccessor(k)]);
          io["succ"] = std::move(s);
          if (B->isConditional()) io["cond"] = operand(B->getCondition());
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
          Array s, c;
          s.push_back(bbs[S->getDefaultDest()]);
          for (auto &cs : S->cases()) {
            s.push_back(bbs[cs.getCaseSuccessor()]);
            c.push_back(cs.getCaseValue()->getSExtValue());
          }
          io["succ"] = std::move(s);
          io["cases"] = std::move(c);
          io["cond"] = operand(S->getCondition());
        } else {
          Array ops;
          for (auto &Op : I.operands())
            if (!isa<BasicBlock>(Op)) ops.push_back(operand(Op));
          io["ops"] = std::move(ops);
          if (auto *G = dyn_cast<GEPOperator>(&I)) {
            io["path"] = gepPath(G);
            io["src"] = tyStr(G->getSourceElementType());
          }
          if (auto *C = dyn_cast<CmpInst>(&I))
            io["pred"] = CmpInst::getPredicateName(C->getPredicate());
          if (auto *AI = dyn_cast<AllocaInst>(&I))
            io["aty"] = tyStr(AI->getAllocatedType());
          if (isa<StoreInst>(I)) io["vty"] = tyStr(I.getOperand(0)->getType());
          if (isa<CastInst>(I)) io["sty"] = tyStr(I.getOperand(0)->getType());
        }
        insts.push_back(std::move(io));
      }
      blocks.push_back(std::move(insts));
    }
    o["blocks"] = std::move(blocks);
    o["names"] = std::move(names);
    return o;
  }
};

static void collectStruct(const DICompositeType *C, const std::string &alias) {
  if (C->isForwardDecl()) return;
  std::string n = alias.empty() ? C->getName().str() : alias;
  if (n.empty() || DIStructs.count(n)) return;
  std::vector<Mem> ms;
  for (auto *E : C->getElements())
    if (auto *D = dyn_cast<DIDerivedType>(E))
      if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember())
        ms.push_back({D->getOffsetInBits(), D->getSizeInBits(), D->getName().str(), diTypeName(D->getBaseType())});
  DIStructs[n] = ms;
}

// Puts the bodies of the named functions in place of the calls to them. Member
// addresses at offset 0 keep their form (the inliner would drop them).
static int inlineCalls(const char *names, const char *in, const char *outname) {
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(in, Err, Ctx);
  if (!M) { Err.print(in, errs()); return 2; }
  SmallVector<StringRef, 16> ns;
  StringRef(names).split(ns, ',');
  std::vector<Function *> hs;
  for (auto n : ns)
    if (auto *F = M->getFunction(n))
      if (!F->isDeclaration()) hs.push_back(F);
  std::map<Function *, GetElementPtrInst *> keep;
  std::map<std::pair<Type *, unsigned>, Function *> dummy;
  auto *PT = PointerType::getUnqual(Ctx);
  std::set<Function *> all(hs.begin(), hs.end()), into;
  for (auto *F : hs)
    for (auto *U : F->users())
      if (auto *C = dyn_cast<CallBase>(U))
        if (C->getCalledFunction() == F) all.insert(C->getFunction());
  for (auto *F : all) {
    F->removeFnAttr(Attribute::NoInline);
    F->removeFnAttr(Attribute::OptimizeNone);
    std::vector<GetElementPtrInst *> gs;
    for (auto &I : instructions(F))
      if (auto *G = dyn_cast<GetElementPtrInst>(&I))
        if (G->hasAllZeroIndices() && G->getNumIndices() > 1 && G->getType() == PT) gs.push_back(G);
    for (auto *G : gs) {
      auto &D = dummy[{G->getSourceElementType(), G->getNumIndices()}];
      if (!D) {
        D = Function::Create(FunctionType::get(PT, {PT}, false), GlobalValue::ExternalLinkage, "__gep0", M.get());
        D->setDoesNotThrow();
        auto *K = cast<GetElementPtrInst>(G->clone());
        K->setOperand(0, UndefValue::get(PT));
        keep[D] = K;
      }
      auto *C = CallInst::Create(D->getFunctionType(), D, {G->getPointerOperand()}, "", G);
      C->setDebugLoc(G->getDebugLoc());
      if (!C->getDebugLoc() && F->getSubprogram())
        C->setDebugLoc(DILocation::get(Ctx, 0, 0, F->getSubprogram()));
      C->takeName(G);
      G->replaceAllUsesWith(C);
      G->eraseFromParent();
    }
  }
  for (int round = 0; round < 8; round++) {
    bool any = false;
    for (auto *F : hs) {
      std::vector<CallBase *> cs;
      bool self = false;
      for (auto *U : F->users())
        if (auto *C = dyn_cast<CallBase>(U))
          if (C->getCalledFunction() == F) {
            if (C->getFunction() == F) self = true;
            cs.push_back(C);
          }
      if (self) continue;
      for (auto *C : cs) {
        InlineFunctionInfo IFI;
        into.insert(C->getFunction());
        any |= InlineFunction(*C, IFI, false, nullptr, false).isSuccess();
      }
    }
    if (!any) break;
  }
  // what a helper returns is often tested right after the call: follow each outcome
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  for (auto *F : into) {
    FunctionPassManager FPM;
    FPM.addPass(PromotePass());
    FPM.addPass(JumpThreadingPass());
    FPM.run(*F, FAM);
  }
  for (auto &kv : keep) {
    std::vector<CallInst *> cs;
    for (auto *U : kv.first->users()) cs.push_back(cast<CallInst>(U));
    for (auto *C : cs) {
      auto *G = cast<GetElementPtrInst>(kv.second->clone());
      G->setOperand(0, C->getArgOperand(0));
      G->insertBefore(C);
      G->setDebugLoc(C->getDebugLoc());
      G->takeName(C);
      C->replaceAllUsesWith(G);
      C->eraseFromParent();
    }
    kv.first->eraseFromParent();
    kv.second->deleteValue();
  }
  for (auto *F : hs)
    if (F->hasLocalLinkage() && F->use_empty()) F->eraseFromParent();
  std::error_code EC;
  raw_fd_ostream os(outname, EC);
  if (EC) return 2;
  WriteBitcodeToFile(*M, os);
  return 0;
}

int main(int argc, char **argv) {
  if (argc == 5 && std::string(argv[1]) == "--inline") return inlineCalls(argv[2], argv[3], argv[4]);
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  // local symbols of different units must stay apart
  if (argc > 2) {
    std::string tag = std::string("@@") + argv[2];
    for (auto &G : M->globals()) if (G.hasLocalLinkage()) G.setName(G.getName().str() + tag);
    for (auto &F : *M) if (F.hasLocalLinkage()) F.setName(F.getName().str() + tag);
  }
  DebugInfoFinder DIF;
  DIF.processModule(*M);
  for (auto *T : DIF.types()) {
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() == dwarf::DW_TAG_structure_type ||
          C->getTag() == dwarf::DW_TAG_class_type)
        collectStruct(C, "");
    } else if (auto *D = dyn_cast<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_typedef)
        if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
          if (C->getName().empty()) collectStruct(C, D->getName().str());
    }
  }
  Object out;
  Object ss;
  for (auto &kv : DIStructs) {
    Array a;
    for (auto &m : kv.second)
      a.push_back(Array{m.name, m.type, (int64_t)(m.off / 8), (int64_t)(m.size / 8)});
    ss[kv.first] = std::move(a);
  }
  out["structs"] = std::move(ss);
  Array gs;
  for (auto &G : M->globals()) {
    Object g;
    g["name"] = G.getName();
    g["const"] = G.isConstant();
    g["decl"] = G.isDeclaration();
    g["internal"] = G.hasLocalLinkage();
    g["tls"] = G.isThreadLocal();
    g["ty"] = tyStr(G.getValueType());
    SmallVector<DIGlobalVariableExpression *, 1> gvs;
    G.getDebugInfo(gvs);
    if (!gvs.empty()) {
      auto *V = gvs[0]->getVariable();
      g["file"] = V->getFilename();
      g["line"] = (int64_t)V->getLine();
      g["src"] = V->getName();
      g["dty"] = diTypeName(V->getType());
      if (auto *S = dyn_cast_or_null<DISubprogram>(V->getScope())) g["fn"] = S->getName();
    }
    gs.push_back(std::move(g));
  }
  out["globals"] = std::move(gs);
  Array fs;
  for (auto &F : *M) {
    if (F.isIntrinsic() && F.getName().starts_with("llvm.dbg")) continue;
    fs.push_back(FnDump(F).run());
  }
  out["functions"] = std::move(fs);
  outs() << JV(std::move(out)) << "\n";
  return 0;
}
