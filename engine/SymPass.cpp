// LLVM pass plugin: replaces every floating-point operation of a translation
// unit by a call into the symbolic runtime (symrt).  A symbolic number is a
// NaN-boxed handle, so loads, stores, phis, selects, calls, containers and
// exceptions need no change: the compiled code itself is what is executed.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/CommandLine.h"
#include <map>
#include <set>
#include <string>

using namespace llvm;

namespace {

struct SymPass : PassInfoMixin<SymPass> {
  static bool isRequired() { return true; }

  LLVMContext* C = nullptr;
  Module* M = nullptr;
  Type *F64, *F32, *I64, *I32, *I1, *I8;

  bool isFP(Type* t) const { return t->isDoubleTy() || t->isFloatTy(); }
  const char* suf(Type* t) const { return t->isDoubleTy() ? "d" : "f"; }

  FunctionCallee fn(const std::string& name, Type* ret, ArrayRef<Type*> args) {
    FunctionCallee f = M->getOrInsertFunction(name, FunctionType::get(ret, args, false));
    return f;
  }
  CallInst* call(IRBuilder<>& b, const std::string& name, Type* ret,
                 ArrayRef<Value*> args) {
    std::vector<Type*> tys;
    for (auto* a : args) tys.push_back(a->getType());
    return b.CreateCall(fn(name, ret, tys), args);
  }

  static bool hasFP(Type* t) {
    if (t->isVectorTy()) t = cast<VectorType>(t)->getElementType();
    return t->isDoubleTy() || t->isFloatTy();
  }

  // Applies op lane by lane for vectors.
  template <typename Op>
  Value* lanes(IRBuilder<>& b, Type* rt, ArrayRef<Value*> ops, Op op) {
    auto* vt = dyn_cast<FixedVectorType>(ops[0]->getType());
    if (!vt) return op(ops, rt);
    Type* relt = cast<FixedVectorType>(rt)->getElementType();
    Value* acc = PoisonValue::get(rt);
    for (unsigned i = 0; i < vt->getNumElements(); ++i) {
      SmallVector<Value*, 4> sc;
      for (auto* o : ops)
        sc.push_back(o->getType()->isVectorTy() ? b.CreateExtractElement(o, i) : o);
      acc = b.CreateInsertElement(acc, op(sc, relt), i);
    }
    return acc;
  }

  void unsupported(Instruction& I, const char* why) {
    errs() << "sympass: unsupported (" << why << ") in " << I.getFunction()->getName()
           << ": " << I << "\n";
  }

  bool handle(Instruction& I) {
    IRBuilder<> b(&I);
    Type* rt = I.getType();
    Value* res = nullptr;
    if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
      const char* nm = nullptr;
      switch (bo->getOpcode()) {
        case Instruction::FAdd: nm = "add"; break;
        case Instruction::FSub: nm = "sub"; break;
        case Instruction::FMul: nm = "mul"; break;
        case Instruction::FDiv: nm = "div"; break;
        case Instruction::FRem: nm = "fmod"; break;
        default: return false;
      }
      if (!hasFP(rt)) return false;  // long double etc.
      res = lanes(b, rt, {bo->getOperand(0), bo->getOperand(1)},
                  [&](ArrayRef<Value*> o, Type* t) -> Value* {
                    return call(b, std::string("__sym_") + nm + "_" + suf(t), t, o);
                  });
    } else if (isa<UnaryOperator>(I) && I.getOpcode() == Instruction::FNeg) {
      if (!hasFP(rt)) return false;
      res = lanes(b, rt, {I.getOperand(0)}, [&](ArrayRef<Value*> o, Type* t) -> Value* {
        return call(b, std::string("__sym_neg_") + suf(t), t, o);
      });
    } else if (auto* fc = dyn_cast<FCmpInst>(&I)) {
      if (!hasFP(fc->getOperand(0)->getType())) return false;
      int pred = fc->getPredicate();
      if (pred == CmpInst::FCMP_TRUE || pred == CmpInst::FCMP_FALSE) return false;
      // a select between the two compared values is a min/max: keep it an expression
      res = lanes(b, rt, {fc->getOperand(0), fc->getOperand(1)},
                  [&](ArrayRef<Value*> o, Type*) -> Value* {
                    Type* et = o[0]->getType();
                    Value* c = call(b, std::string("__sym_fcmp_") + suf(et), I32,
                                    {ConstantInt::get(I32, pred), o[0], o[1]});
                    return b.CreateICmpNE(c, ConstantInt::get(I32, 0));
                  });
    } else if (auto* ci = dyn_cast<CastInst>(&I)) {
      Type* st = ci->getSrcTy();
      Type* dt = ci->getDestTy();
      switch (ci->getOpcode()) {
        case Instruction::FPToSI:
        case Instruction::FPToUI: {
          if (!hasFP(st)) return false;
          bool sg = ci->getOpcode() == Instruction::FPToSI;
          res = lanes(b, dt, {ci->getOperand(0)}, [&](ArrayRef<Value*> o, Type* t) -> Value* {
            Value* r = call(b, std::string(sg ? "__sym_toi_" : "__sym_tou_") + suf(o[0]->getType()),
                            I64, {o[0], ConstantInt::get(I32, t->getIntegerBitWidth())});
            return b.CreateTruncOrBitCast(r, t);
          });
          break;
        }
        case Instruction::SIToFP:
        case Instruction::UIToFP: {
          if (!hasFP(dt)) return false;
          bool sg = ci->getOpcode() == Instruction::SIToFP;
          auto* sst = st->isVectorTy() ? cast<VectorType>(st)->getElementType() : st;
          if (sst->getIntegerBitWidth() != 64) return false;  // only 64-bit ints can carry tags
          res = lanes(b, dt, {ci->getOperand(0)}, [&](ArrayRef<Value*> o, Type* t) -> Value* {
            return call(b, std::string(sg ? "__sym_fromi_" : "__sym_fromu_") + suf(t), t, o);
          });
          break;
        }
        case Instruction::FPTrunc:
          if (!hasFP(dt)) return false;
          if (!hasFP(st)) return false;
          res = lanes(b, dt, {ci->getOperand(0)}, [&](ArrayRef<Value*> o, Type* t) -> Value* {
            return call(b, "__sym_fptrunc", t, o);
          });
          break;
        case Instruction::FPExt:
          if (!hasFP(st)) return false;
          if (!hasFP(dt)) {  // to long double: only concrete values
            Value* v = lanes(b, st, {ci->getOperand(0)}, [&](ArrayRef<Value*> o, Type* t) -> Value* {
              return call(b, std::string("__sym_concrete_") + suf(t), t, o);
            });
            ci->setOperand(0, v);
            return true;
          }
          res = lanes(b, dt, {ci->getOperand(0)}, [&](ArrayRef<Value*> o, Type* t) -> Value* {
            return call(b, "__sym_fpext", t, o);
          });
          break;
        default: return false;
      }
    } else if (auto* si = dyn_cast<SelectInst>(&I)) {
      (void)si;
      return false;
    } else if (auto* cb = dyn_cast<CallBase>(&I)) {
      Function* f = cb->getCalledFunction();
      if (!f) return false;
      std::string n = f->getName().str();
      if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
        const char* nm = nullptr;
        unsigned na = 0;
        switch (ii->getIntrinsicID()) {
          case Intrinsic::fabs: nm = "fabs"; na = 1; break;
          case Intrinsic::sqrt: nm = "sqrt"; na = 1; break;
          case Intrinsic::floor: nm = "floor"; na = 1; break;
          case Intrinsic::ceil: nm = "ceil"; na = 1; break;
          case Intrinsic::trunc: nm = "trunc"; na = 1; break;
          case Intrinsic::rint: nm = "rint"; na = 1; break;
          case Intrinsic::nearbyint: nm = "rint"; na = 1; break;
          case Intrinsic::round: nm = "round"; na = 1; break;
          case Intrinsic::sin: nm = "sin"; na = 1; break;
          case Intrinsic::cos: nm = "cos"; na = 1; break;
          case Intrinsic::exp: nm = "exp"; na = 1; break;
          case Intrinsic::log: nm = "log"; na = 1; break;
          case Intrinsic::pow: nm = "pow"; na = 2; break;
          case Intrinsic::minnum: nm = "fmin"; na = 2; break;
          case Intrinsic::maxnum: nm = "fmax"; na = 2; break;
          case Intrinsic::copysign: nm = "copysign"; na = 2; break;
          case Intrinsic::fma:
          case Intrinsic::fmuladd: nm = "fma"; na = 3; break;
          case Intrinsic::powi: {
            if (!hasFP(rt) || rt->isVectorTy()) return false;
            res = call(b, std::string("__sym_powi_") + suf(rt), rt, {ii->getArgOperand(0), ii->getArgOperand(1)});
            break;
          }
          case Intrinsic::is_fpclass: {
            if (!hasFP(ii->getArgOperand(0)->getType())) return false;
            Value* mask = ii->getArgOperand(1);
            res = lanes(b, rt, {ii->getArgOperand(0)}, [&](ArrayRef<Value*> o, Type*) -> Value* {
              Value* c = call(b, std::string("__sym_fpclass_") + suf(o[0]->getType()), I32, {o[0], mask});
              return b.CreateICmpNE(c, ConstantInt::get(I32, 0));
            });
            break;
          }
          default: {
            std::string nn = n;
            bool fpa = hasFP(rt);
            for (auto& a : ii->args()) fpa = fpa || hasFP(a->getType());
            if (fpa && !nn.empty() && nn.find("llvm.lifetime") == std::string::npos &&
                nn.find("llvm.dbg") == std::string::npos)
              unsupported(I, "intrinsic");
            return false;
          }
        }
        if (!res) {
          if (!hasFP(rt)) return false;
          SmallVector<Value*, 3> ops;
          for (unsigned i = 0; i < na; ++i) ops.push_back(ii->getArgOperand(i));
          res = lanes(b, rt, ops, [&](ArrayRef<Value*> o, Type* t) -> Value* {
            return call(b, std::string("__sym_") + nm + "_" + suf(t), t, o);
          });
        }
      } else {
        static const std::map<std::string, int> libm = {
            {"sin", 1}, {"cos", 1}, {"tan", 1}, {"asin", 1}, {"acos", 1}, {"atan", 1},
            {"atan2", 2}, {"exp", 1}, {"log", 1}, {"pow", 2}, {"sqrt", 1}, {"cbrt", 1},
            {"floor", 1}, {"ceil", 1}, {"round", 1}, {"trunc", 1}, {"rint", 1}, {"fmod", 2},
            {"fmin", 2}, {"fmax", 2}, {"hypot", 2}, {"fabs", 1}, {"exp2", 1}, {"log2", 1},
            {"log10", 1}, {"sinh", 1}, {"cosh", 1}, {"tanh", 1}, {"copysign", 2}};
        std::string base = n;
        Type* want = F64;
        auto it = libm.find(base);
        if (it == libm.end() && !base.empty() && base.back() == 'f') {
          base.pop_back();
          it = libm.find(base);
          want = F32;
        }
        if (it == libm.end()) {
          if ((n == "lround" || n == "llround" || n == "lrint" || n == "lroundf") && cb->arg_size() == 1) {
            res = call(b, std::string("__sym_lround_") + suf(cb->getArgOperand(0)->getType()), I64, {cb->getArgOperand(0)});
            if (res->getType() != rt) return false;
          } else
            return false;
        } else {
          if (rt != want || (int)cb->arg_size() != it->second) return false;
          SmallVector<Value*, 2> ops;
          for (int i = 0; i < it->second; ++i) {
            if (cb->getArgOperand(i)->getType() != want) return false;
            ops.push_back(cb->getArgOperand(i));
          }
          res = call(b, std::string("__sym_") + base + "_" + suf(want), rt, ops);
        }
        if (auto* inv = dyn_cast<InvokeInst>(cb)) {
          inv->replaceAllUsesWith(res);
          BranchInst::Create(inv->getNormalDest(), inv);
          inv->getUnwindDest()->removePredecessor(inv->getParent());
          inv->eraseFromParent();
          return true;
        }
      }
    } else {
      return false;
    }
    if (!res) return false;
    I.replaceAllUsesWith(res);
    I.eraseFromParent();
    return true;
  }

  // a possible thread switch before every atomic operation a program uses to synchronise
  void schedPoints(Module& m) {
    FunctionCallee pt = m.getOrInsertFunction("__sched_point", FunctionType::get(Type::getVoidTy(m.getContext()), {}, false));
    for (Function& f : m) {
      if (f.isDeclaration() || f.getName().starts_with("__s")) continue;
      std::vector<Instruction*> at;
      for (auto& I : instructions(f)) {
        if (auto* l = dyn_cast<LoadInst>(&I)) {
          auto* g = dyn_cast<GlobalVariable>(l->getPointerOperand());
          if (g && g->getName().starts_with("_ZGV")) continue;
          if (l->getOrdering() == AtomicOrdering::SequentiallyConsistent || (l->getOrdering() == AtomicOrdering::Acquire && l->getType()->isIntegerTy(8))) at.push_back(&I);
        } else if (auto* st = dyn_cast<StoreInst>(&I)) {
          if (st->getOrdering() == AtomicOrdering::SequentiallyConsistent || (st->getOrdering() == AtomicOrdering::Release && st->getValueOperand()->getType()->isIntegerTy(8))) at.push_back(&I);
        } else if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) {
          if (rm->getOrdering() == AtomicOrdering::SequentiallyConsistent) at.push_back(&I);
        } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
          if (cx->getSuccessOrdering() == AtomicOrdering::SequentiallyConsistent) at.push_back(&I);
        }
      }
      for (auto* I : at) CallInst::Create(pt, {}, "", I);
    }
  }

  PreservedAnalyses run(Module& m, ModuleAnalysisManager&) {
    M = &m;
    schedPoints(m);
    if (getenv("SYMPASS_ATOMIC")) return PreservedAnalyses::none();  // replay build: real arithmetic
    C = &m.getContext();
    F64 = Type::getDoubleTy(*C);
    F32 = Type::getFloatTy(*C);
    I64 = Type::getInt64Ty(*C);
    I32 = Type::getInt32Ty(*C);
    I1 = Type::getInt1Ty(*C);
    I8 = Type::getInt8Ty(*C);
    for (Function& f : m) {
      if (f.isDeclaration()) continue;
      if (f.getName().starts_with("__sym_")) continue;
      std::vector<Instruction*> work;
      for (auto& I : instructions(f)) work.push_back(&I);
      for (auto* I : work) handle(*I);
      // the memory effect attributes of pure numeric code no longer hold
      f.removeFnAttr(Attribute::Memory);
      f.removeFnAttr(Attribute::NoUnwind);
      f.removeFnAttr(Attribute::WillReturn);
      f.removeFnAttr(Attribute::NoSync);
      f.removeFnAttr(Attribute::NoFree);
    }
    for (Function& f : m)
      for (auto& I : instructions(f))
        if (auto* cb = dyn_cast<CallBase>(&I)) {
          cb->removeFnAttr(Attribute::Memory);
          cb->removeFnAttr(Attribute::WillReturn);
        }
    return PreservedAnalyses::none();
  }
};
// Records which functions of the code under test are executed (before inlining).
struct MarkPass : PassInfoMixin<MarkPass> {
  static bool isRequired() { return true; }
  PreservedAnalyses run(Module& m, ModuleAnalysisManager&) {
    if (getenv("SYMPASS_ATOMIC")) return PreservedAnalyses::all();
    auto& C = m.getContext();
    Type* I8 = Type::getInt8Ty(C);
    Type* P = PointerType::getUnqual(C);
    FunctionCallee fn = m.getOrInsertFunction("__sym_fn", FunctionType::get(Type::getVoidTy(C), {P, P}, false));
    std::vector<Function*> fs;
    for (Function& f : m) {
      if (f.isDeclaration() || f.empty()) continue;
      StringRef n = f.getName();
      if (n.contains("_GLOBAL__") || n.contains("__cxx_global")) continue;
      if (n.starts_with("_ZSt") || n.starts_with("_ZNSt") || n.starts_with("_ZNKSt") || n.starts_with("_ZN5Eigen") || n.starts_with("_ZNK5Eigen") || n.starts_with("_ZN9__gnu") || n.starts_with("_ZNK9__gnu")) continue;
      if (!(n.contains("mav_trajectory_generation") || n.contains("mav_msgs") || n.contains("dynamic_traj") || n.contains("ynamicWaypoint") || n.contains("ynamicTrajectory") || n.contains("ThreadSafe") || n.contains("rpoly") || n.contains("nlopt") || n.contains("_ak1"))) continue;
      fs.push_back(&f);
    }
    for (Function* f : fs) {
      auto* flag = new GlobalVariable(m, I8, false, GlobalValue::PrivateLinkage, ConstantInt::get(I8, 0), "__sym_flag");
      IRBuilder<> b(&*f->getEntryBlock().getFirstInsertionPt());
      b.CreateCall(fn, {b.CreateGlobalStringPtr(f->getName()), flag});
    }
    return PreservedAnalyses::none();
  }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder& pb) {
            pb.registerPipelineStartEPCallback(
                [](ModulePassManager& mpm, OptimizationLevel) { mpm.addPass(MarkPass()); });
            pb.registerOptimizerLastEPCallback(
                [](ModulePassManager& mpm, OptimizationLevel) { mpm.addPass(SymPass()); });
          }};
}
