// irx: load LLVM bitcode of one translation unit, promote locals to SSA,
// inline helper functions that are not in the reference list, and write the
// resolved program (functions, blocks, instructions, struct-field accesses,
// callees, switch tables, constant tables, enums, struct layouts) as JSON.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include <fstream>
#include <map>
#include <set>
#include <functional>
using namespace llvm;

static std::map<std::string, DICompositeType*> DIBy; // "struct.conn" -> DI
static const DataLayout *DL;

static DIType *strip(DIType *t) {
  while (t) {
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
      unsigned g = d->getTag();
      if (g == dwarf::DW_TAG_typedef || g == dwarf::DW_TAG_const_type ||
          g == dwarf::DW_TAG_volatile_type || g == dwarf::DW_TAG_restrict_type) {
        t = d->getBaseType(); continue;
      }
    }
    break;
  }
  return t;
}
static std::string tyname(DIType *t) {
  if (!t) return "void";
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
    case dwarf::DW_TAG_pointer_type: return tyname(d->getBaseType()) + "*";
    case dwarf::DW_TAG_typedef: return d->getName().str();
    case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type:
    case dwarf::DW_TAG_restrict_type: return tyname(d->getBaseType());
    default: return d->getName().str();
    }
  }
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) return tyname(c->getBaseType()) + "[]";
    return c->getName().str();
  }
  if (isa<DISubroutineType>(t)) return "fn";
  return t->getName().str();
}
static DICompositeType *diFor(StructType *st) {
  if (!st->hasName()) return nullptr;
  std::string n = st->getName().str();
  auto it = DIBy.find(n);
  if (it != DIBy.end()) return it->second;
  // strip numeric suffix ".123"
  size_t p = n.rfind('.');
  if (p != std::string::npos && p > 6 && isdigit((unsigned char)n[p+1])) {
    it = DIBy.find(n.substr(0, p));
    if (it != DIBy.end()) return it->second;
  }
  return nullptr;
}
static std::string stname(StructType *st) {
  if (!st->hasName()) return "anon";
  std::string n = st->getName().str();
  if (n.rfind("struct.", 0) == 0) n = n.substr(7);
  else if (n.rfind("union.", 0) == 0) n = n.substr(6);
  size_t p = n.rfind('.');
  if (p != std::string::npos && isdigit((unsigned char)n[p+1])) n = n.substr(0, p);
  return n;
}
static std::string memberAt(DICompositeType *ct, uint64_t bits) {
  for (auto *e : ct->getElements()) {
    auto *m = dyn_cast<DIDerivedType>(e);
    if (!m) continue;
    if (m->getOffsetInBits() == bits) {
      if (m->getName().empty()) return "@" + std::to_string(bits / 8);
      return m->getName().str();
    }
  }
  return "@" + std::to_string(bits / 8);
}
static std::string fieldName(StructType *st, unsigned idx) {
  uint64_t off = DL->getStructLayout(st)->getElementOffset(idx);
  if (DICompositeType *ct = diFor(st))
    return stname(st) + "." + memberAt(ct, off * 8);
  return stname(st) + ".@" + std::to_string(off);
}

// size of what each index of gepSteps steps over, in the same order
static void gepSizes(const GEPOperator *g, json::Array &sizes) {
  Type *t = g->getSourceElementType(); bool first = true;
  for (auto it = g->idx_begin(); it != g->idx_end(); ++it) {
    const Value *ix = it->get();
    if (first) {
      first = false;
      auto *c = dyn_cast<ConstantInt>(ix);
      if (!c || !c->isZero()) sizes.push_back((int64_t)(t->isSized() ? DL->getTypeAllocSize(t).getFixedValue() : 0));
      continue;
    }
    if (auto *st = dyn_cast<StructType>(t)) { unsigned i = cast<ConstantInt>(ix)->getZExtValue(); sizes.push_back((int64_t)0); t = st->getElementType(i); }
    else if (auto *at = dyn_cast<ArrayType>(t)) { t = at->getElementType(); sizes.push_back((int64_t)DL->getTypeAllocSize(t).getFixedValue()); }
    else sizes.push_back((int64_t)0);
  }
}

static std::map<const Value*, int> IDs;
static json::Value operand(const Value *v);

static bool gepSteps(const GEPOperator *g, json::Array &steps) {
  Type *t = g->getSourceElementType();
  bool first = true;
  for (auto it = g->idx_begin(); it != g->idx_end(); ++it) {
    const Value *ix = it->get();
    if (first) {
      first = false;
      if (auto *c = dyn_cast<ConstantInt>(ix)) {
        if (c->isZero()) continue;
        steps.push_back(json::Array{"[]", json::Array{"c", c->getSExtValue()}});
      } else steps.push_back(json::Array{"[]", operand(ix)});
      continue;
    }
    if (auto *st = dyn_cast<StructType>(t)) {
      unsigned i = cast<ConstantInt>(ix)->getZExtValue();
      steps.push_back(fieldName(st, i));
      t = st->getElementType(i);
    } else if (auto *at = dyn_cast<ArrayType>(t)) {
      if (auto *c = dyn_cast<ConstantInt>(ix))
        steps.push_back(json::Array{"[]", json::Array{"c", c->getSExtValue()}});
      else steps.push_back(json::Array{"[]", operand(ix)});
      t = at->getElementType();
    } else {
      steps.push_back(json::Array{"[]", operand(ix)});
    }
  }
  return true;
}

static std::string fixs(StringRef s) {
  return json::isUTF8(s) ? s.str() : json::fixUTF8(s);
}

static json::Value operand(const Value *v) {
  if (auto *c = dyn_cast<ConstantInt>(v)) {
    if (c->getBitWidth() == 1) return json::Array{"c", (int64_t)c->getZExtValue()};
    if (c->getBitWidth() > 64) return json::Array{"u"};
    return json::Array{"c", c->getSExtValue()};
  }
  if (isa<ConstantPointerNull>(v)) return json::Array{"c", (int64_t)0};
  if (isa<UndefValue>(v)) return json::Array{"u"};
  if (auto *a = dyn_cast<Argument>(v)) return json::Array{"a", (int64_t)a->getArgNo()};
  if (auto *g = dyn_cast<GlobalVariable>(v)) {
    if (g->hasInitializer() && g->isConstant())
      if (auto *cd = dyn_cast<ConstantDataArray>(g->getInitializer()))
        if (cd->isString()) {
          StringRef s = cd->getAsString();
          if (!s.empty() && s.back() == 0) s = s.drop_back();
          return json::Array{"s", fixs(s)};
        }
    if (g->hasInitializer() && g->isConstant() && g->hasPrivateLinkage() &&
        isa<ConstantAggregateZero>(g->getInitializer()) && g->getName().starts_with(".str"))
      return json::Array{"s", ""};
    return json::Array{"g", g->getName().str()};
  }
  if (auto *f = dyn_cast<Function>(v)) return json::Array{"g", f->getName().str()};
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) {
      json::Array st; gepSteps(g, st);
      return json::Array{"f", operand(g->getPointerOperand()), std::move(st)};
    }
    if (ce->isCast()) return operand(ce->getOperand(0));
    return json::Array{"u"};
  }
  auto it = IDs.find(v);
  if (it != IDs.end()) return json::Array{"i", (int64_t)it->second};
  return json::Array{"u"};
}
static std::string tstr(Type *t) {
  std::string s; raw_string_ostream o(s);
  if (auto *st = dyn_cast<StructType>(t)) { return st->hasName() ? st->getName().str() : "{}"; }
  t->print(o, false, true); return o.str();
}

static void flatten(Constant *c, Type *t, std::string path, json::Array &out, int depth) {
  if (depth > 6 || out.size() > 20000) return;
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    auto *st = cs->getType();
    for (unsigned i = 0; i < st->getNumElements(); i++)
      flatten(cs->getOperand(i), st->getElementType(i),
              path + "/" + (st->hasName() ? fieldName(st, i) : ("#" + std::to_string(i))), out, depth + 1);
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    for (unsigned i = 0; i < ca->getNumOperands(); i++)
      flatten(ca->getOperand(i), ca->getType()->getElementType(), path + "/" + std::to_string(i), out, depth + 1);
    return;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    if (cd->isString()) { StringRef s = cd->getAsString(); out.push_back(json::Array{path, json::Array{"s", fixs(s)}}); return; }
    for (unsigned i = 0; i < cd->getNumElements() && i < 512; i++)
      flatten(cd->getElementAsConstant(i), cd->getElementType(), path + "/" + std::to_string(i), out, depth + 1);
    return;
  }
  if (isa<ConstantAggregateZero>(c)) { out.push_back(json::Array{path, json::Array{"z"}}); return; }
  out.push_back(json::Array{path, operand(c)});
}

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage: irx in.bc ref.txt out.json\n"; return 2; }
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irx", errs()); return 2; }
  DL = &M->getDataLayout();
  std::set<std::string> ref;
  { std::ifstream in(argv[2]); std::string s; while (std::getline(in, s)) if (!s.empty()) ref.insert(s); }
  bool haveRef = !ref.empty();
  // mem2reg
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM; FunctionPassManager FPM; FPM.addPass(PromotePass());
  json::Array inlined;
  // inline functions that are not in the reference list (helpers added later)
  if (haveRef) {
    // the inliner folds the address of a first member into the address of its struct; keep those addresses opaque meanwhile
    std::vector<std::pair<Function*, GetElementPtrInst*>> keep;
    for (auto &F : *M) {
      if (F.isDeclaration() || ref.count(F.getName().str())) continue;
      std::vector<GetElementPtrInst*> gs;
      for (auto &B : F) for (auto &I : B) if (auto *g = dyn_cast<GetElementPtrInst>(&I))
        if (g->hasAllZeroIndices() && !g->getType()->isVectorTy()) gs.push_back(g);
      for (auto *g : gs) {
        auto *ft = FunctionType::get(g->getType(), {g->getPointerOperand()->getType()}, false);
        auto *f = Function::Create(ft, GlobalValue::ExternalLinkage, "vp.first." + std::to_string(keep.size()), M.get());
        auto *c = CallInst::Create(ft, f, {g->getPointerOperand()}, "", g);
        c->setDebugLoc(g->getDebugLoc());
        g->replaceAllUsesWith(c);
        auto *copy = cast<GetElementPtrInst>(g->clone());
        copy->setOperand(0, PoisonValue::get(g->getPointerOperand()->getType()));
        g->eraseFromParent();
        keep.push_back({f, copy});
      }
    }
    bool changed = true; int rounds = 0;
    while (changed && rounds++ < 8) {
      changed = false;
      for (auto &F : *M) {
        if (F.isDeclaration() || ref.count(F.getName().str())) continue;
        // is it directly recursive?
        bool rec = false;
        for (auto &B : F) for (auto &I : B) if (auto *cb = dyn_cast<CallBase>(&I)) if (cb->getCalledFunction() == &F) rec = true;
        if (rec) continue;
        std::vector<CallBase*> sites;
        for (auto *U : F.users()) if (auto *cb = dyn_cast<CallBase>(U)) if (cb->getCalledFunction() == &F && cb->getFunction() != &F) sites.push_back(cb);
        for (auto *cb : sites) {
          InlineFunctionInfo IFI;
          std::string caller = cb->getFunction()->getName().str();
          F.removeFnAttr(Attribute::NoInline);
          F.removeFnAttr(Attribute::OptimizeNone);
          auto r = InlineFunction(*cb, IFI);
          if (r.isSuccess()) { changed = true; inlined.push_back(json::Array{F.getName().str(), caller}); }
        }
      }
    }
    std::vector<Function*> dead;
    for (auto &F : *M) if (!F.isDeclaration() && !ref.count(F.getName().str()) && F.hasLocalLinkage() && F.use_empty()) dead.push_back(&F);
    for (auto *F : dead) F->eraseFromParent();
    for (auto &k : keep) {
      std::vector<CallInst*> cs;
      for (auto *U : k.first->users()) cs.push_back(cast<CallInst>(U));
      for (auto *c : cs) {
        auto *g = cast<GetElementPtrInst>(k.second->clone());
        g->setOperand(0, c->getArgOperand(0));
        g->insertBefore(c);
        g->setDebugLoc(c->getDebugLoc());
        c->replaceAllUsesWith(g);
        c->eraseFromParent();
      }
      k.second->deleteValue();
      k.first->eraseFromParent();
    }
  }
  MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
  MPM.run(*M, MAM);
  for (auto &F : *M) if (!F.isDeclaration()) removeUnreachableBlocks(F);

  DebugInfoFinder DIF; DIF.processModule(*M);
  json::Object enums, structs;
  for (auto *t : DIF.types()) {
    if (auto *ct = dyn_cast<DICompositeType>(t)) {
      unsigned g = ct->getTag();
      if ((g == dwarf::DW_TAG_structure_type || g == dwarf::DW_TAG_union_type) && !ct->getName().empty() && ct->getElements().size()) {
        DIBy[(g == dwarf::DW_TAG_structure_type ? "struct." : "union.") + ct->getName().str()] = ct;
      }
    }
  }
  for (auto *t : DIF.types()) {
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
      if (d->getTag() == dwarf::DW_TAG_typedef) {
        if (auto *ct = dyn_cast_or_null<DICompositeType>(strip(d))) {
          if (ct->getName().empty()) {
            std::string k = (ct->getTag() == dwarf::DW_TAG_union_type ? "union." : "struct.") + d->getName().str();
            if (!DIBy.count(k)) DIBy[k] = ct;
          }
        }
      }
    }
  }
  for (auto &kv : DIBy) {
    json::Array ms;
    for (auto *e : kv.second->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e))
      ms.push_back(json::Array{m->getName().str(), (int64_t)(m->getOffsetInBits() / 8), tyname(m->getBaseType()), (int64_t)(m->getSizeInBits()/8)});
    size_t p = kv.first.find('.');
    structs[kv.first.substr(p + 1)] = std::move(ms);
  }
  for (auto *t : DIF.types()) if (auto *ct = dyn_cast<DICompositeType>(t))
    if (ct->getTag() == dwarf::DW_TAG_enumeration_type)
      for (auto *e : ct->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e))
        enums[en->getName()] = en->getValue().getSExtValue();
  // enumerators of the compile unit (anonymous / retained)
  for (auto *cu : DIF.compile_units()) for (auto *ct : cu->getEnumTypes())
    for (auto *e : ct->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e))
      enums[en->getName()] = en->getValue().getSExtValue();

  json::Object out;
  json::Array funcs, decls;
  for (auto &F : *M) {
    if (F.isDeclaration()) { if (!F.isIntrinsic()) decls.push_back(F.getName().str()); continue; }
    IDs.clear();
    std::map<const BasicBlock*, int> bid; int nb = 0, ni = 0;
    for (auto &B : F) { bid[&B] = nb++; for (auto &I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; IDs[&I] = ni++; } }
    json::Object fo; fo["name"] = F.getName().str();
    fo["local"] = F.hasLocalLinkage();
    fo["ret"] = tstr(F.getReturnType());
    json::Array args;
    DISubprogram *sp = F.getSubprogram();
    DITypeRefArray ta; if (sp && sp->getType()) ta = sp->getType()->getTypeArray();
    for (auto &A : F.args()) {
      std::string dt; unsigned k = A.getArgNo() + 1;
      if (ta && k < ta.size()) dt = tyname(ta[k]);
      args.push_back(json::Array{A.getName().str(), dt, tstr(A.getType())});
    }
    fo["args"] = std::move(args);
    fo["dret"] = (ta && ta.size() > 0) ? tyname(ta[0]) : "";
    fo["line"] = sp ? (int64_t)sp->getLine() : 0;
    fo["file"] = sp ? sp->getFilename().str() : "";
    fo["addrtaken"] = F.hasAddressTaken();
    json::Array blocks;
    for (auto &B : F) {
      json::Array insts;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        json::Object o; o["id"] = (int64_t)IDs[&I];
        if (auto &dl = I.getDebugLoc()) { 
          o["l"] = (int64_t)dl.getLine();
        }
        if (!I.getType()->isVoidTy()) o["t"] = tstr(I.getType());
        if (auto *x = dyn_cast<CallBase>(&I)) {
          o["op"] = "call";
          const Value *cv = x->getCalledOperand()->stripPointerCasts();
          o["callee"] = operand(cv);
          json::Array as; for (auto &a : x->args()) as.push_back(operand(a.get()));
          o["args"] = std::move(as);
          if (x->doesNotReturn()) o["noret"] = true;
        } else if (auto *x = dyn_cast<LoadInst>(&I)) {
          o["op"] = "load"; o["p"] = operand(x->getPointerOperand());
        } else if (auto *x = dyn_cast<StoreInst>(&I)) {
          o["op"] = "store"; o["p"] = operand(x->getPointerOperand()); o["v"] = operand(x->getValueOperand());
          o["vt"] = tstr(x->getValueOperand()->getType());
        } else if (auto *x = dyn_cast<GEPOperator>(&I)) {
          o["op"] = "gep"; o["p"] = operand(x->getPointerOperand());
          json::Array st; gepSteps(x, st); o["s"] = std::move(st);
          json::Array es; gepSizes(x, es); o["es"] = std::move(es);
        } else if (auto *x = dyn_cast<ICmpInst>(&I)) {
          o["op"] = "icmp"; o["pred"] = ICmpInst::getPredicateName(x->getPredicate()).str();
          o["a"] = operand(x->getOperand(0)); o["b"] = operand(x->getOperand(1));
        } else if (auto *x = dyn_cast<PHINode>(&I)) {
          o["op"] = "phi"; json::Array in;
          for (unsigned i = 0; i < x->getNumIncomingValues(); i++)
            in.push_back(json::Array{(int64_t)bid[x->getIncomingBlock(i)], operand(x->getIncomingValue(i))});
          o["in"] = std::move(in);
        } else if (auto *x = dyn_cast<BranchInst>(&I)) {
          o["op"] = "br";
          if (x->isConditional()) { o["c"] = operand(x->getCondition());
            o["d"] = json::Array{(int64_t)bid[x->getSuccessor(0)], (int64_t)bid[x->getSuccessor(1)]}; }
          else o["d"] = json::Array{(int64_t)bid[x->getSuccessor(0)]};
        } else if (auto *x = dyn_cast<SwitchInst>(&I)) {
          o["op"] = "switch"; o["c"] = operand(x->getCondition());
          o["def"] = (int64_t)bid[x->getDefaultDest()];
          json::Array cs; for (auto &c : x->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), (int64_t)bid[c.getCaseSuccessor()]});
          o["cases"] = std::move(cs);
        } else if (auto *x = dyn_cast<ReturnInst>(&I)) {
          o["op"] = "ret"; if (x->getReturnValue()) o["v"] = operand(x->getReturnValue());
        } else if (isa<UnreachableInst>(&I)) { o["op"] = "unreachable";
        } else if (auto *x = dyn_cast<AllocaInst>(&I)) {
          o["op"] = "alloca"; o["at"] = tstr(x->getAllocatedType()); o["sz"] = (int64_t)DL->getTypeAllocSize(x->getAllocatedType()).getFixedValue(); o["n"] = x->getName().str();
        } else if (auto *x = dyn_cast<SelectInst>(&I)) {
          o["op"] = "select"; o["c"] = operand(x->getCondition()); o["a"] = operand(x->getTrueValue()); o["b"] = operand(x->getFalseValue());
        } else if (auto *x = dyn_cast<CastInst>(&I)) {
          o["op"] = "cast"; o["k"] = x->getOpcodeName(); o["a"] = operand(x->getOperand(0)); o["st"] = tstr(x->getSrcTy());
        } else if (auto *x = dyn_cast<BinaryOperator>(&I)) {
          o["op"] = "bin"; o["k"] = x->getOpcodeName(); o["a"] = operand(x->getOperand(0)); o["b"] = operand(x->getOperand(1));
        } else {
          o["op"] = "other"; o["k"] = I.getOpcodeName(); json::Array as; for (auto &a : I.operands()) as.push_back(operand(a.get()));
          o["args"] = std::move(as);
        }
        insts.push_back(std::move(o));
      }
      blocks.push_back(std::move(insts));
    }
    fo["blocks"] = std::move(blocks);
    funcs.push_back(std::move(fo));
  }
  json::Object globals;
  IDs.clear();
  for (auto &G : M->globals()) {
    json::Object g; g["local"] = G.hasLocalLinkage(); g["const"] = G.isConstant(); g["t"] = tstr(G.getValueType());
    g["sz"] = (int64_t)(G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0);
    g["decl"] = G.isDeclaration(); g["tls"] = G.isThreadLocal();
    if (G.hasInitializer() && !(G.getName().starts_with(".str"))) {
      json::Array fl; flatten(G.getInitializer(), G.getValueType(), "", fl, 0); g["init"] = std::move(fl);
    }
    if (!G.getName().starts_with(".str")) globals[G.getName()] = std::move(g);
  }
  out["funcs"] = std::move(funcs); out["decls"] = std::move(decls); out["globals"] = std::move(globals);
  out["enums"] = std::move(enums); out["structs"] = std::move(structs); out["inlined"] = std::move(inlined);
  std::error_code ec; raw_fd_ostream os(argv[3], ec);
  if (ec) { errs() << ec.message() << "\n"; return 2; }
  os << json::Value(std::move(out)); os.close();
  return 0;
}
