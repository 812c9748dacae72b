#include "llvm/Analysis/ValueTracking.h"
// SxPass: instruments LLVM IR so that the compiled program computes, next to
// every concrete value, an SMT bit-vector expression over the symbolic inputs
// ("shadow").  Shadows are opaque pointers handed out by libsxrt; a null shadow
// means "does not depend on any symbolic input on this path".
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <map>
using namespace llvm;

namespace {
constexpr unsigned kMaxArgs = 64;

// Operation codes shared with the runtime (sxrt.cpp).
enum : unsigned {
  OP_ADD = 1, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM,
  OP_SHL, OP_LSHR, OP_ASHR, OP_AND, OP_OR, OP_XOR,
  OP_FADD = 32, OP_FSUB, OP_FMUL, OP_FDIV, OP_FREM, OP_FMIN, OP_FMAX, OP_FCOPYSIGN,
  OP_UMIN = 48, OP_UMAX, OP_SMIN, OP_SMAX, OP_UADDSAT, OP_SADDSAT, OP_USUBSAT, OP_SSUBSAT,
  OP_UADDO, OP_SADDO, OP_USUBO, OP_SSUBO, OP_UMULO, OP_SMULO
};
enum : unsigned {
  C_TRUNC = 1, C_ZEXT, C_SEXT, C_FPTRUNC, C_FPEXT, C_FPTOUI, C_FPTOSI, C_UITOFP, C_SITOFP
};
enum : unsigned {
  U_FNEG = 1, U_FABS, U_BSWAP, U_CTPOP, U_CTLZ, U_CTTZ, U_FSQRT, U_FFLOOR, U_FCEIL,
  U_FTRUNC, U_FRINT, U_FROUND, U_BITREV, U_ABS, U_FROUNDEVEN
};

struct Sx {
  Module &M;
  LLVMContext &C;
  Type *I64, *I32, *I1, *Void;
  PointerType *P;
  Constant *Null;
  GlobalVariable *GArgs, *GCallee, *GRet, *GRetFn;
  FunctionCallee FEnter, FCallPre, FRet, FRetSet, FBin, FICmp, FFCmp, FFBin, FCast, FUn,
      FSelect, FLoad, FStore, FBranch, FPtrAdd, FMemcpy, FMemset, FClear, FConc, FByval,
      FFma, FConcat, FExtract, FFshl, FIsFp, FUnsup;
  unsigned nextId = 0;
  uint64_t modHash;

  Sx(Module &M) : M(M), C(M.getContext()) {
    I64 = Type::getInt64Ty(C); I32 = Type::getInt32Ty(C); I1 = Type::getInt1Ty(C);
    Void = Type::getVoidTy(C); P = PointerType::get(C, 0);
    Null = ConstantPointerNull::get(P);
    auto gv = [&](const char *n, Type *T) {
      return cast<GlobalVariable>(M.getOrInsertGlobal(n, T));
    };
    GArgs = gv("__sx_args", ArrayType::get(P, kMaxArgs));
    GCallee = gv("__sx_callee", P);
    GRet = gv("__sx_retv", ArrayType::get(P, kMaxArgs));
    GRetFn = gv("__sx_retfn", P);
    auto fn = [&](const char *n, Type *R, std::vector<Type *> a) {
      return M.getOrInsertFunction(n, FunctionType::get(R, a, false));
    };
    FEnter = fn("__sx_enter", P, {P});
    FCallPre = fn("__sx_callpre", Void, {P, I32, P});
    FRet = fn("__sx_getret", P, {P});
    FRetSet = fn("__sx_setret", Void, {P, I32});
    FBin = fn("__sx_bin", P, {I32, I32, P, I64, P, I64});
    FICmp = fn("__sx_icmp", P, {I32, I32, P, I64, P, I64});
    FFCmp = fn("__sx_fcmp", P, {I32, I32, P, I64, P, I64});
    FFBin = fn("__sx_fbin", P, {I32, I32, P, I64, P, I64});
    FCast = fn("__sx_cast", P, {I32, I32, I32, P, I64});
    FUn = fn("__sx_un", P, {I32, I32, P, I64});
    FSelect = fn("__sx_select", P, {I32, P, I64, P, I64, P, I64});
    FLoad = fn("__sx_load", P, {P, P, I32, I32});
    FStore = fn("__sx_store", Void, {P, P, P, I64, I32, I32});
    FBranch = fn("__sx_branch", Void, {P, I64, I64});
    FPtrAdd = fn("__sx_ptradd", P, {P, I64, P, I64, I64, I32});
    FMemcpy = fn("__sx_memcpy", Void, {P, P, I64, P, P, P});
    FMemset = fn("__sx_memset", Void, {P, I64, I64, P, P, P});
    FClear = fn("__sx_clear", Void, {P, I64});
    FConc = fn("__sx_concretize", Void, {P, I64});
    FByval = fn("__sx_byval", Void, {P, P, I64});
    FFma = fn("__sx_fma", P, {I32, P, I64, P, I64, P, I64});
    FConcat = fn("__sx_concat", P, {I32, P, I64, I32, P, I64});
    FExtract = fn("__sx_extract", P, {P, I32, I32});
    FFshl = fn("__sx_fsh", P, {I32, I32, P, I64, P, I64, P, I64});
    FIsFp = fn("__sx_isfpclass", P, {I32, I32, P, I64});
    FUnsup = fn("__sx_unsupported", Void, {P, I64});
    modHash = 1469598103934665603ULL;
    for (char c : M.getName()) modHash = (modHash ^ (unsigned char)c) * 1099511628211ULL;
  }

  static bool scalarOk(Type *T) {
    if (auto *IT = dyn_cast<IntegerType>(T)) return IT->getBitWidth() <= 64;
    return T->isPointerTy() || T->isFloatTy() || T->isDoubleTy();
  }
  unsigned width(Type *T) {
    if (auto *IT = dyn_cast<IntegerType>(T)) return IT->getBitWidth();
    if (T->isFloatTy()) return 32;
    return 64;
  }
  void flatten(Type *T, std::vector<Type *> &out) {
    if (auto *ST = dyn_cast<StructType>(T)) {
      for (auto *E : ST->elements()) flatten(E, out);
    } else if (auto *AT = dyn_cast<ArrayType>(T)) {
      for (uint64_t i = 0; i < AT->getNumElements(); ++i) flatten(AT->getElementType(), out);
    } else if (auto *VT = dyn_cast<FixedVectorType>(T)) {
      for (unsigned i = 0; i < VT->getNumElements(); ++i) out.push_back(VT->getElementType());
    } else if (!T->isVoidTy())
      out.push_back(T);
  }
  std::vector<Type *> flat(Type *T) { std::vector<Type *> v; flatten(T, v); return v; }
  unsigned nflat(Type *T) { return flat(T).size(); }
  // Flat index of the sub-aggregate reached by idx.
  unsigned flatIndex(Type *T, ArrayRef<unsigned> idx) {
    unsigned off = 0;
    for (unsigned i : idx) {
      if (auto *ST = dyn_cast<StructType>(T)) {
        for (unsigned k = 0; k < i; ++k) off += nflat(ST->getElementType(k));
        T = ST->getElementType(i);
      } else {
        auto *AT = cast<ArrayType>(T);
        off += i * nflat(AT->getElementType());
        T = AT->getElementType();
      }
    }
    return off;
  }
};

using Shadow = std::vector<Value *>;

struct FnInstr {
  Sx &S;
  Function &F;
  std::map<Value *, Shadow> sh;
  std::vector<std::pair<PHINode *, std::vector<PHINode *>>> phis;
  const DataLayout &DL;
  FnInstr(Sx &S, Function &F) : S(S), F(F), DL(F.getParent()->getDataLayout()) {}

  bool isNull(Value *v) { return v == S.Null; }
  bool allNull(const Shadow &s) {
    for (auto *v : s) if (!isNull(v)) return false;
    return true;
  }
  Shadow nulls(Type *T) { return Shadow(S.nflat(T), S.Null); }
  Shadow get(Value *V) {
    auto it = sh.find(V);
    if (it != sh.end()) return it->second;
    return nulls(V->getType());
  }
  Value *get1(Value *V) {
    Shadow s = get(V);
    return s.empty() ? (Value *)S.Null : s[0];
  }
  // Concrete value of a scalar as i64.
  Value *conc(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (T->isPointerTy()) return B.CreatePtrToInt(V, S.I64);
    if (T->isFloatTy()) return B.CreateZExt(B.CreateBitCast(V, S.I32), S.I64);
    if (T->isDoubleTy()) return B.CreateBitCast(V, S.I64);
    if (auto *IT = dyn_cast<IntegerType>(T)) {
      if (IT->getBitWidth() < 64) return B.CreateZExt(V, S.I64);
      if (IT->getBitWidth() == 64) return V;
      return B.CreateTrunc(V, S.I64);
    }
    return ConstantInt::get(S.I64, 0);
  }
  Value *lane(IRBuilder<> &B, Value *V, unsigned i) {
    if (V->getType()->isVectorTy()) return B.CreateExtractElement(V, (uint64_t)i);
    return V;
  }
  Value *aggElem(IRBuilder<> &B, Value *V, unsigned flatIdx) {
    // concrete element flatIdx of aggregate/vector/scalar V
    Type *T = V->getType();
    if (T->isVectorTy()) return lane(B, V, flatIdx);
    if (auto *ST = dyn_cast<StructType>(T)) {
      for (unsigned k = 0; k < ST->getNumElements(); ++k) {
        unsigned n = S.nflat(ST->getElementType(k));
        if (flatIdx < n) return aggElem(B, B.CreateExtractValue(V, k), flatIdx);
        flatIdx -= n;
      }
    }
    if (auto *AT = dyn_cast<ArrayType>(T)) {
      unsigned n = S.nflat(AT->getElementType());
      return aggElem(B, B.CreateExtractValue(V, flatIdx / n), flatIdx % n);
    }
    return V;
  }
  Value *i32(unsigned v) { return ConstantInt::get(S.I32, v); }
  Value *i64(uint64_t v) { return ConstantInt::get(S.I64, v); }

  static unsigned binOp(unsigned op) {
    switch (op) {
    case Instruction::Add: return OP_ADD; case Instruction::Sub: return OP_SUB;
    case Instruction::Mul: return OP_MUL; case Instruction::UDiv: return OP_UDIV;
    case Instruction::SDiv: return OP_SDIV; case Instruction::URem: return OP_UREM;
    case Instruction::SRem: return OP_SREM; case Instruction::Shl: return OP_SHL;
    case Instruction::LShr: return OP_LSHR; case Instruction::AShr: return OP_ASHR;
    case Instruction::And: return OP_AND; case Instruction::Or: return OP_OR;
    case Instruction::Xor: return OP_XOR; case Instruction::FAdd: return OP_FADD;
    case Instruction::FSub: return OP_FSUB; case Instruction::FMul: return OP_FMUL;
    case Instruction::FDiv: return OP_FDIV; case Instruction::FRem: return OP_FREM;
    }
    return 0;
  }

  void concAll(IRBuilder<> &B, Value *V) {
    Shadow s = get(V);
    for (unsigned i = 0; i < s.size(); ++i)
      if (!isNull(s[i]))
        B.CreateCall(S.FUnsup, {s[i], conc(B, aggElem(B, V, i))});
  }

  Value *emitBin(IRBuilder<> &B, unsigned op, Type *ET, Value *sa, Value *a, Value *sb, Value *b) {
    if (isNull(sa) && isNull(sb)) return S.Null;
    FunctionCallee f = op >= OP_FADD && op <= OP_FCOPYSIGN ? S.FFBin : S.FBin;
    return B.CreateCall(f, {i32(op), i32(S.width(ET)), sa, conc(B, a), sb, conc(B, b)});
  }

  void run() {
    removeUnreachableBlocks(F);
    // Make sure every invoke's normal destination has it as its only predecessor.
    {
      std::vector<InvokeInst *> invs;
      for (auto &BB : F)
        if (auto *II = dyn_cast<InvokeInst>(BB.getTerminator())) invs.push_back(II);
      for (auto *II : invs)
        if (!II->getNormalDest()->getSinglePredecessor())
          SplitEdge(II->getParent(), II->getNormalDest());
        else if (isa<PHINode>(II->getNormalDest()->front())) {
          // single-pred phi: fold
          FoldSingleEntryPHINodes(II->getNormalDest());
        }
    }
    std::vector<Instruction *> work;
    {
      ReversePostOrderTraversal<Function *> rpo(&F);
      for (BasicBlock *BB : rpo)
        for (Instruction &I : *BB) work.push_back(&I);
    }
    // Entry: fetch argument shadows.
    Instruction *entryIP = &*F.getEntryBlock().getFirstInsertionPt();
    while (isa<AllocaInst>(entryIP)) entryIP = entryIP->getNextNode();
    {
      IRBuilder<> B(entryIP);
      Value *arr = B.CreateCall(S.FEnter, {&F});
      unsigned k = 0;
      for (Argument &A : F.args()) {
        Shadow s;
        auto fl = S.flat(A.getType());
        for (unsigned i = 0; i < fl.size(); ++i, ++k) {
          if (k < kMaxArgs && Sx::scalarOk(fl[i]))
            s.push_back(B.CreateLoad(S.P, B.CreateConstInBoundsGEP1_64(S.P, arr, k)));
          else s.push_back(S.Null);
        }
        sh[&A] = s;
        if (A.hasByValAttr() && s[0] != S.Null) {
          // The caller passed its own pointer in the shadow slot.
          uint64_t sz = DL.getTypeAllocSize(A.getParamByValType());
          B.CreateCall(S.FByval, {&A, s[0], i64(sz)});
          sh[&A] = Shadow{S.Null};
        }
      }
    }
    for (Instruction *I : work)
      if (auto *PN = dyn_cast<PHINode>(I)) {
        Shadow s;
        auto fl = S.flat(PN->getType());
        std::vector<PHINode *> ps;
        for (unsigned i = 0; i < fl.size(); ++i) {
          if (!Sx::scalarOk(fl[i])) { s.push_back(S.Null); ps.push_back(nullptr); continue; }
          PHINode *q = PHINode::Create(S.P, PN->getNumIncomingValues(), "", PN);
          s.push_back(q); ps.push_back(q);
        }
        sh[PN] = s;
        phis.push_back({PN, ps});
      }
    for (Instruction *I : work) visit(*I);
    for (auto &[PN, ps] : phis)
      for (unsigned k = 0; k < PN->getNumIncomingValues(); ++k) {
        Shadow s = get(PN->getIncomingValue(k));
        for (unsigned i = 0; i < ps.size(); ++i)
          if (ps[i]) ps[i]->addIncoming(s[i], PN->getIncomingBlock(k));
      }
  }

  void visit(Instruction &I) {
    if (isa<PHINode>(I)) return;
    IRBuilder<> B(&I);
    if (auto *BO = dyn_cast<BinaryOperator>(&I)) return visitBin(B, *BO);
    if (auto *CI = dyn_cast<CmpInst>(&I)) return visitCmp(B, *CI);
    if (auto *CI = dyn_cast<CastInst>(&I)) return visitCast(B, *CI);
    if (auto *UO = dyn_cast<UnaryOperator>(&I)) { // fneg
      visitUn(B, I, U_FNEG, UO->getOperand(0)); return;
    }
    if (auto *FI = dyn_cast<FreezeInst>(&I)) { sh[&I] = get(FI->getOperand(0)); return; }
    if (auto *SI = dyn_cast<SelectInst>(&I)) return visitSelect(B, *SI);
    if (auto *LI = dyn_cast<LoadInst>(&I)) return visitLoad(B, *LI);
    if (auto *SI = dyn_cast<StoreInst>(&I)) return visitStore(B, *SI);
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) return visitGEP(B, *G);
    if (auto *AI = dyn_cast<AllocaInst>(&I)) return visitAlloca(*AI);
    if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
      Shadow s = get(EV->getAggregateOperand());
      unsigned off = S.flatIndex(EV->getAggregateOperand()->getType(), EV->getIndices());
      unsigned n = S.nflat(EV->getType());
      sh[&I] = Shadow(s.begin() + off, s.begin() + off + n); return;
    }
    if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
      Shadow s = get(IV->getAggregateOperand()), t = get(IV->getInsertedValueOperand());
      unsigned off = S.flatIndex(IV->getType(), IV->getIndices());
      for (unsigned i = 0; i < t.size(); ++i) s[off + i] = t[i];
      sh[&I] = s; return;
    }
    if (auto *EE = dyn_cast<ExtractElementInst>(&I)) {
      Shadow s = get(EE->getVectorOperand());
      if (auto *CI = dyn_cast<ConstantInt>(EE->getIndexOperand())) {
        if (CI->getZExtValue() < s.size()) sh[&I] = Shadow{s[CI->getZExtValue()]};
      } else { concAll(B, EE->getVectorOperand()); concAll(B, EE->getIndexOperand()); }
      return;
    }
    if (auto *IE = dyn_cast<InsertElementInst>(&I)) {
      Shadow s = get(IE->getOperand(0));
      if (auto *CI = dyn_cast<ConstantInt>(IE->getOperand(2))) {
        if (CI->getZExtValue() < s.size()) s[CI->getZExtValue()] = get1(IE->getOperand(1));
        sh[&I] = s;
      } else { concAll(B, IE->getOperand(0)); concAll(B, IE->getOperand(1)); concAll(B, IE->getOperand(2)); }
      return;
    }
    if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) {
      Shadow a = get(SV->getOperand(0)), b = get(SV->getOperand(1)), r;
      for (int m : SV->getShuffleMask())
        r.push_back(m < 0 ? (Value *)S.Null : m < (int)a.size() ? a[m] : b[m - a.size()]);
      sh[&I] = r; return;
    }
    if (auto *CB = dyn_cast<CallBase>(&I)) return visitCall(*CB);
    if (auto *BI = dyn_cast<BranchInst>(&I)) {
      if (BI->isConditional()) {
        Value *s = get1(BI->getCondition());
        if (!isNull(s)) B.CreateCall(S.FBranch, {s, conc(B, BI->getCondition()), site()});
      }
      return;
    }
    if (auto *SW = dyn_cast<SwitchInst>(&I)) return visitSwitch(B, *SW);
    if (auto *RI = dyn_cast<ReturnInst>(&I)) return visitRet(B, *RI);
    if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
      for (Value *op : I.operands()) concAll(B, op);
      Value *p = isa<AtomicRMWInst>(I) ? cast<AtomicRMWInst>(I).getPointerOperand()
                                       : cast<AtomicCmpXchgInst>(I).getPointerOperand();
      Value *v = isa<AtomicRMWInst>(I) ? cast<AtomicRMWInst>(I).getValOperand()
                                       : cast<AtomicCmpXchgInst>(I).getNewValOperand();
      B.CreateCall(S.FClear, {p, i64(DL.getTypeStoreSize(v->getType()))});
      return;
    }
    // Everything else (landingpad, resume, unreachable, fence ...): no shadow;
    // concretise any symbolic scalar operand that would be lost.
    if (isa<LandingPadInst>(I) || isa<ResumeInst>(I) || isa<UnreachableInst>(I) || isa<FenceInst>(I)) return;
    for (Value *op : I.operands())
      if (sh.count(op)) concAll(B, op);
  }

  Value *site() { return i64(S.modHash ^ (uint64_t)(++S.nextId) * 0x9E3779B97F4A7C15ULL); }

  void visitBin(IRBuilder<> &B, BinaryOperator &I) {
    Shadow a = get(I.getOperand(0)), b = get(I.getOperand(1));
    if (allNull(a) && allNull(b)) return;
    Type *ET = I.getType()->getScalarType();
    if (!Sx::scalarOk(ET)) { concAll(B, I.getOperand(0)); concAll(B, I.getOperand(1)); return; }
    unsigned op = binOp(I.getOpcode());
    Shadow r;
    for (unsigned i = 0; i < a.size(); ++i)
      r.push_back(emitBin(B, op, ET, a[i], lane(B, I.getOperand(0), i), b[i], lane(B, I.getOperand(1), i)));
    sh[&I] = r;
  }
  void visitUn(IRBuilder<> &B, Instruction &I, unsigned op, Value *V) {
    Shadow a = get(V);
    if (allNull(a)) return;
    Type *ET = I.getType()->getScalarType();
    if (!Sx::scalarOk(ET)) { concAll(B, V); return; }
    Shadow r;
    for (unsigned i = 0; i < a.size(); ++i)
      r.push_back(isNull(a[i]) ? (Value *)S.Null
        : B.CreateCall(S.FUn, {i32(op), i32(S.width(ET)), a[i], conc(B, lane(B, V, i))}));
    sh[&I] = r;
  }
  void visitCmp(IRBuilder<> &B, CmpInst &I) {
    Shadow a = get(I.getOperand(0)), b = get(I.getOperand(1));
    if (allNull(a) && allNull(b)) return;
    Type *ET = I.getOperand(0)->getType()->getScalarType();
    if (!Sx::scalarOk(ET)) { concAll(B, I.getOperand(0)); concAll(B, I.getOperand(1)); return; }
    Shadow r;
    for (unsigned i = 0; i < a.size(); ++i) {
      if (isNull(a[i]) && isNull(b[i])) { r.push_back(S.Null); continue; }
      r.push_back(B.CreateCall(isa<ICmpInst>(I) ? S.FICmp : S.FFCmp,
          {i32(I.getPredicate()), i32(S.width(ET)), a[i], conc(B, lane(B, I.getOperand(0), i)),
           b[i], conc(B, lane(B, I.getOperand(1), i))}));
    }
    sh[&I] = r;
  }
  void visitCast(IRBuilder<> &B, CastInst &I) {
    Value *V = I.getOperand(0);
    Shadow a = get(V);
    if (allNull(a)) return;
    Type *ST = V->getType()->getScalarType(), *DT = I.getType()->getScalarType();
    if (!Sx::scalarOk(ST) || !Sx::scalarOk(DT)) { concAll(B, V); return; }
    unsigned op = 0;
    switch (I.getOpcode()) {
    case Instruction::Trunc: op = C_TRUNC; break;
    case Instruction::ZExt: op = C_ZEXT; break;
    case Instruction::SExt: op = C_SEXT; break;
    case Instruction::FPTrunc: op = C_FPTRUNC; break;
    case Instruction::FPExt: op = C_FPEXT; break;
    case Instruction::FPToUI: op = C_FPTOUI; break;
    case Instruction::FPToSI: op = C_FPTOSI; break;
    case Instruction::UIToFP: op = C_UITOFP; break;
    case Instruction::SIToFP: op = C_SITOFP; break;
    case Instruction::PtrToInt: op = S.width(DT) < 64 ? C_TRUNC : 0; break;
    case Instruction::IntToPtr: op = S.width(ST) < 64 ? C_ZEXT : 0; break;
    case Instruction::BitCast: {
      unsigned n = S.nflat(I.getType());
      if (n == a.size()) { sh[&I] = a; return; }
      if (n == 1) { // vector -> scalar: concat
        unsigned w = S.width(ST);
        Value *acc = a[0]; Value *cacc = conc(B, lane(B, V, 0));
        for (unsigned i = 1; i < a.size(); ++i) {
          Value *c = conc(B, lane(B, V, i));
          acc = B.CreateCall(S.FConcat, {i32(w), a[i], c, i32(w * i), acc, cacc});
          cacc = B.CreateOr(cacc, B.CreateShl(c, w * i));
        }
        sh[&I] = Shadow{acc}; return;
      }
      if (a.size() == 1) {
        Shadow r; unsigned w = S.width(DT);
        for (unsigned i = 0; i < n; ++i) r.push_back(B.CreateCall(S.FExtract, {a[0], i32(w * i), i32(w)}));
        sh[&I] = r; return;
      }
      concAll(B, V); return;
    }
    default: concAll(B, V); return;
    }
    if (!op) { sh[&I] = a; return; }
    Shadow r;
    for (unsigned i = 0; i < a.size(); ++i)
      r.push_back(isNull(a[i]) ? (Value *)S.Null
        : B.CreateCall(S.FCast, {i32(op), i32(S.width(ST)), i32(S.width(DT)), a[i], conc(B, lane(B, V, i))}));
    sh[&I] = r;
  }
  void visitSelect(IRBuilder<> &B, SelectInst &I) {
    Shadow c = get(I.getCondition()), a = get(I.getTrueValue()), b = get(I.getFalseValue());
    if (allNull(c) && allNull(a) && allNull(b)) return;
    auto fl = S.flat(I.getType());
    bool vec = I.getCondition()->getType()->isVectorTy();
    Shadow r;
    for (unsigned i = 0; i < fl.size(); ++i) {
      Value *sc = vec ? c[i] : c[0];
      if ((isNull(sc) && isNull(a[i]) && isNull(b[i])) || !Sx::scalarOk(fl[i])) { r.push_back(S.Null); continue; }
      r.push_back(B.CreateCall(S.FSelect, {i32(S.width(fl[i])), sc, conc(B, lane(B, I.getCondition(), i)),
          a[i], conc(B, aggElem(B, I.getTrueValue(), i)), b[i], conc(B, aggElem(B, I.getFalseValue(), i))}));
    }
    sh[&I] = r;
  }
  // (offset,type) of each flattened scalar in memory
  void memFlat(Type *T, uint64_t off, std::vector<std::pair<uint64_t, Type *>> &out) {
    if (auto *ST = dyn_cast<StructType>(T)) {
      const StructLayout *SL = DL.getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); ++i) memFlat(ST->getElementType(i), off + SL->getElementOffset(i), out);
    } else if (auto *AT = dyn_cast<ArrayType>(T)) {
      for (uint64_t i = 0; i < AT->getNumElements(); ++i) memFlat(AT->getElementType(), off + i * DL.getTypeAllocSize(AT->getElementType()), out);
    } else if (auto *VT = dyn_cast<FixedVectorType>(T)) {
      unsigned eb = DL.getTypeSizeInBits(VT->getElementType()) ;
      for (unsigned i = 0; i < VT->getNumElements(); ++i) out.push_back({off + i * eb / 8, VT->getElementType()});
    } else out.push_back({off, T});
  }
  void visitLoad(IRBuilder<> &B, LoadInst &I) {
    Value *Ptr = I.getPointerOperand();
    if (auto *GV = dyn_cast<GlobalVariable>(Ptr))
      if (GV->isConstant()) return;
    Value *sp = get1(Ptr);
    std::vector<std::pair<uint64_t, Type *>> mf;
    memFlat(I.getType(), 0, mf);
    if (auto *VT = dyn_cast<FixedVectorType>(I.getType()))
      if (DL.getTypeSizeInBits(VT->getElementType()) % 8) { if (!isNull(sp)) B.CreateCall(S.FConc, {sp, conc(B, Ptr)}); return; }
    Shadow r;
    for (auto &[off, T] : mf) {
      if (!Sx::scalarOk(T)) {
        if (!isNull(sp)) B.CreateCall(S.FConc, {sp, conc(B, Ptr)});
        r.push_back(S.Null); continue;
      }
      Value *p = off ? B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(S.C), Ptr, off) : Ptr;
      Value *s2 = off && !isNull(sp) ? (Value *)B.CreateCall(S.FPtrAdd, {sp, conc(B, Ptr), S.Null, i64(0), i64(off), i32(64)}) : sp;
      r.push_back(B.CreateCall(S.FLoad, {p, s2, i32((S.width(T) + 7) / 8), i32(S.width(T))}));
    }
    sh[&I] = r;
  }
  void visitStore(IRBuilder<> &B, StoreInst &I) {
    Value *Ptr = I.getPointerOperand(), *V = I.getValueOperand();
    Value *sp = get1(Ptr);
    std::vector<std::pair<uint64_t, Type *>> mf;
    memFlat(V->getType(), 0, mf);
    Shadow s = get(V);
    for (unsigned i = 0; i < mf.size(); ++i) {
      auto [off, T] = mf[i];
      Value *p = off ? B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(S.C), Ptr, off) : Ptr;
      if (!isNull(sp) && i == 0) B.CreateCall(S.FConc, {sp, conc(B, Ptr)});
      if (!Sx::scalarOk(T)) { B.CreateCall(S.FClear, {p, i64(DL.getTypeStoreSize(T))}); continue; }
      B.CreateCall(S.FStore, {p, S.Null, s[i], conc(B, aggElem(B, V, i)), i32((S.width(T) + 7) / 8), i32(S.width(T))});
    }
  }
  void visitGEP(IRBuilder<> &B, GetElementPtrInst &G) {
    if (G.getType()->isVectorTy()) { for (Value *op : G.operands()) concAll(B, op); return; }
    Value *base = G.getPointerOperand();
    Value *s = get1(base);
    bool any = !isNull(s);
    for (auto &ix : G.indices()) if (!isNull(get1(ix))) any = true;
    if (!any) return;
    unsigned BW = DL.getIndexSizeInBits(0);
    MapVector<Value *, APInt> vars;
    APInt cst(BW, 0);
    if (!cast<GEPOperator>(&G)->collectOffset(DL, BW, vars, cst)) { for (Value *op : G.operands()) concAll(B, op); return; }
    // symbolic: base + cst + sum(idx*scale)
    Value *cur = s;
    Value *ccur = conc(B, base);
    if (cst != 0) {
      cur = B.CreateCall(S.FPtrAdd, {cur, ccur, S.Null, i64(0), i64(cst.getSExtValue()), i32(64)});
      ccur = B.CreateAdd(ccur, i64(cst.getSExtValue()));
    }
    for (auto &[V, scale] : vars) {
      Value *sx = get1(V);
      unsigned w = S.width(V->getType());
      Value *cv = B.CreateSExtOrTrunc(V, S.I64);
      // ptradd(sb, b, si, i, scale, w): b + sext(i)*scale
      cur = B.CreateCall(S.FPtrAdd, {cur, ccur, sx, cv, i64(scale.getSExtValue()), i32(w)});
      ccur = B.CreateAdd(ccur, B.CreateMul(cv, i64(scale.getSExtValue())));
    }
    sh[&G] = Shadow{cur};
  }
  void visitAlloca(AllocaInst &I) {
    Instruction *ip = I.getNextNode();
    while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
    IRBuilder<> B(ip);
    if (I.isArrayAllocation()) {
      Value *s = get1(I.getArraySize());
      if (!isNull(s)) { IRBuilder<> B0(&I); B0.CreateCall(S.FConc, {s, conc(B0, I.getArraySize())}); }
      Value *n = B.CreateMul(B.CreateZExtOrTrunc(I.getArraySize(), S.I64), i64(DL.getTypeAllocSize(I.getAllocatedType())));
      B.CreateCall(S.FClear, {&I, n});
    } else
      B.CreateCall(S.FClear, {&I, i64(DL.getTypeAllocSize(I.getAllocatedType()))});
  }
  void visitSwitch(IRBuilder<> &B, SwitchInst &I) {
    Value *s = get1(I.getCondition());
    if (isNull(s)) return;
    Type *T = I.getCondition()->getType();
    if (!Sx::scalarOk(T)) { concAll(B, I.getCondition()); return; }
    // one branch event per case constant, in order
    for (auto &c : I.cases()) {
      Value *cc = B.CreateICmpEQ(I.getCondition(), c.getCaseValue());
      Value *sc = B.CreateCall(S.FICmp, {i32(CmpInst::ICMP_EQ), i32(S.width(T)), s, conc(B, I.getCondition()), S.Null, conc(B, c.getCaseValue())});
      B.CreateCall(S.FBranch, {sc, B.CreateZExt(cc, S.I64), site()});
    }
  }
  void visitRet(IRBuilder<> &B0, ReturnInst &I) {
    // keep musttail adjacency
    if (I.getParent()->getTerminatingMustTailCall()) return;
    IRBuilder<> B(&I);
    Value *V = I.getReturnValue();
    unsigned n = 0;
    if (V) {
      Shadow s = get(V);
      n = s.size();
      for (unsigned i = 0; i < s.size() && i < kMaxArgs; ++i)
        B.CreateStore(s[i], B.CreateConstInBoundsGEP2_64(S.GRet->getValueType(), S.GRet, 0, i));
    }
    B.CreateStore(n ? (Value *)&F : S.Null, S.GRetFn);
  }

  void visitCall(CallBase &I) {
    if (auto *II = dyn_cast<IntrinsicInst>(&I)) return visitIntrinsic(*II);
    IRBuilder<> B(&I);
    if (I.isInlineAsm()) {
      for (Value *op : I.args()) concAll(B, op);
      return;
    }
    Value *callee = I.getCalledOperand();
    if (auto *CF = dyn_cast<Function>(callee->stripPointerCasts()))
      if (CF->getName().starts_with("__sx_")) return;
    Value *cs = get1(callee);
    if (!isNull(cs)) B.CreateCall(S.FConc, {cs, conc(B, callee)});
    if (I.isMustTailCall()) { for (Value *op : I.args()) concAll(B, op); return; }
    unsigned k = 0;
    bool any = false;
    std::vector<std::pair<unsigned, Value *>> st;
    bool quietVariadic = false;
    if (auto *CF = dyn_cast<Function>(callee->stripPointerCasts()))
      quietVariadic = CF->getName() == "printf" || CF->getName() == "fprintf" || CF->getName() == "sx_log";
    for (unsigned ai = 0; ai < I.arg_size(); ++ai) {
      Value *A = I.getArgOperand(ai);
      Shadow s = get(A);
      if (ai >= I.getFunctionType()->getNumParams()) {
        // Variadic argument: its shadow cannot travel through va_arg, so the
        // path is split over its values (output-only functions ignore it).
        if (!quietVariadic) concAll(B, A);
        for (unsigned i = 0; i < s.size(); ++i, ++k) st.push_back({k, S.Null});
        continue;
      }
      if (I.isByValArgument(ai)) {
        if (!isNull(s[0])) B.CreateCall(S.FConc, {s[0], conc(B, A)});
        st.push_back({k, A}); // pass pointer itself
        any = true;
        ++k; continue;
      }
      for (unsigned i = 0; i < s.size(); ++i, ++k) {
        if (!isNull(s[i])) any = true;
        st.push_back({k, s[i]});
      }
    }
    if (any) {
      unsigned n = std::min(k, kMaxArgs);
      for (auto &[i, v] : st)
        if (i < kMaxArgs)
          B.CreateStore(v, B.CreateConstInBoundsGEP2_64(S.GArgs->getValueType(), S.GArgs, 0, i));
      // concrete values for possible concretisation at native calls
      AllocaInst *arr;
      {
        IRBuilder<> EB(&*F.getEntryBlock().getFirstInsertionPt());
        arr = EB.CreateAlloca(ArrayType::get(S.I64, n ? n : 1));
      }
      unsigned kk = 0;
      for (unsigned ai = 0; ai < I.arg_size(); ++ai) {
        Value *A = I.getArgOperand(ai);
        unsigned m = I.isByValArgument(ai) ? 1 : S.nflat(A->getType());
        for (unsigned i = 0; i < m; ++i, ++kk) {
          if (kk >= n) break;
          Value *v = I.isByValArgument(ai) ? i64(0x5158425956414CULL) : nullptr; // byval marker
          if (!v) { Value *sv = st[kk].second; v = isNull(sv) ? i64(0) : conc(B, aggElem(B, A, i)); }
          B.CreateStore(v, B.CreateConstInBoundsGEP2_64(arr->getAllocatedType(), arr, 0, kk));
        }
      }
      B.CreateCall(S.FCallPre, {callee, i32(n), arr});
    } else {
      B.CreateStore(S.Null, S.GCallee);
    }
    auto fl = S.flat(I.getType());
    if (fl.empty()) return;
    B.CreateStore(S.Null, S.GRetFn);
    if (I.doesNotReturn() && !isa<InvokeInst>(I)) return;
    Instruction *ip;
    if (auto *IV = dyn_cast<InvokeInst>(&I)) ip = &*IV->getNormalDest()->getFirstInsertionPt();
    else ip = I.getNextNode();
    IRBuilder<> A(ip);
    Value *arr = A.CreateCall(S.FRet, {callee});
    Shadow r;
    for (unsigned i = 0; i < fl.size(); ++i) {
      if (i < kMaxArgs && Sx::scalarOk(fl[i]))
        r.push_back(A.CreateLoad(S.P, A.CreateConstInBoundsGEP1_64(S.P, arr, i)));
      else r.push_back(S.Null);
    }
    sh[&I] = r;
  }

  void binIntr(IRBuilder<> &B, IntrinsicInst &I, unsigned op) {
    Shadow a = get(I.getArgOperand(0)), b = get(I.getArgOperand(1));
    if (allNull(a) && allNull(b)) return;
    Type *ET = I.getType()->getScalarType();
    if (!Sx::scalarOk(ET)) { concAll(B, I.getArgOperand(0)); concAll(B, I.getArgOperand(1)); return; }
    Shadow r;
    for (unsigned i = 0; i < a.size(); ++i)
      r.push_back(emitBin(B, op, ET, a[i], lane(B, I.getArgOperand(0), i), b[i], lane(B, I.getArgOperand(1), i)));
    sh[&I] = r;
  }
  void ovfIntr(IRBuilder<> &B, IntrinsicInst &I, unsigned arith, unsigned ovf) {
    Shadow a = get(I.getArgOperand(0)), b = get(I.getArgOperand(1));
    if (allNull(a) && allNull(b)) return;
    Type *ET = I.getArgOperand(0)->getType();
    if (!Sx::scalarOk(ET)) { concAll(B, I.getArgOperand(0)); concAll(B, I.getArgOperand(1)); return; }
    sh[&I] = Shadow{emitBin(B, arith, ET, a[0], I.getArgOperand(0), b[0], I.getArgOperand(1)),
                    emitBin(B, ovf, ET, a[0], I.getArgOperand(0), b[0], I.getArgOperand(1))};
  }
  void visitIntrinsic(IntrinsicInst &I) {
    IRBuilder<> B(&I);
    switch (I.getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
      B.CreateCall(S.FMemcpy, {I.getArgOperand(0), I.getArgOperand(1), B.CreateZExtOrTrunc(I.getArgOperand(2), S.I64),
          get1(I.getArgOperand(0)), get1(I.getArgOperand(1)), get1(I.getArgOperand(2))});
      return;
    case Intrinsic::memset:
      B.CreateCall(S.FMemset, {I.getArgOperand(0), conc(B, I.getArgOperand(1)), B.CreateZExtOrTrunc(I.getArgOperand(2), S.I64),
          get1(I.getArgOperand(0)), get1(I.getArgOperand(1)), get1(I.getArgOperand(2))});
      return;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start:
    case Intrinsic::invariant_end: case Intrinsic::stacksave: case Intrinsic::stackrestore:
    case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::donothing:
    case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: case Intrinsic::trap:
    case Intrinsic::eh_typeid_for: case Intrinsic::is_constant: case Intrinsic::objectsize:
      return;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
      sh[&I] = get(I.getArgOperand(0)); return;
    case Intrinsic::umin: return binIntr(B, I, OP_UMIN);
    case Intrinsic::umax: return binIntr(B, I, OP_UMAX);
    case Intrinsic::smin: return binIntr(B, I, OP_SMIN);
    case Intrinsic::smax: return binIntr(B, I, OP_SMAX);
    case Intrinsic::uadd_sat: return binIntr(B, I, OP_UADDSAT);
    case Intrinsic::sadd_sat: return binIntr(B, I, OP_SADDSAT);
    case Intrinsic::usub_sat: return binIntr(B, I, OP_USUBSAT);
    case Intrinsic::ssub_sat: return binIntr(B, I, OP_SSUBSAT);
    case Intrinsic::uadd_with_overflow: return ovfIntr(B, I, OP_ADD, OP_UADDO);
    case Intrinsic::sadd_with_overflow: return ovfIntr(B, I, OP_ADD, OP_SADDO);
    case Intrinsic::usub_with_overflow: return ovfIntr(B, I, OP_SUB, OP_USUBO);
    case Intrinsic::ssub_with_overflow: return ovfIntr(B, I, OP_SUB, OP_SSUBO);
    case Intrinsic::umul_with_overflow: return ovfIntr(B, I, OP_MUL, OP_UMULO);
    case Intrinsic::smul_with_overflow: return ovfIntr(B, I, OP_MUL, OP_SMULO);
    case Intrinsic::minnum: case Intrinsic::minimum: return binIntr(B, I, OP_FMIN);
    case Intrinsic::maxnum: case Intrinsic::maximum: return binIntr(B, I, OP_FMAX);
    case Intrinsic::copysign: return binIntr(B, I, OP_FCOPYSIGN);
    case Intrinsic::abs: return visitUn(B, I, U_ABS, I.getArgOperand(0));
    case Intrinsic::bswap: return visitUn(B, I, U_BSWAP, I.getArgOperand(0));
    case Intrinsic::bitreverse: return visitUn(B, I, U_BITREV, I.getArgOperand(0));
    case Intrinsic::ctpop: return visitUn(B, I, U_CTPOP, I.getArgOperand(0));
    case Intrinsic::ctlz: return visitUn(B, I, U_CTLZ, I.getArgOperand(0));
    case Intrinsic::cttz: return visitUn(B, I, U_CTTZ, I.getArgOperand(0));
    case Intrinsic::fabs: return visitUn(B, I, U_FABS, I.getArgOperand(0));
    case Intrinsic::sqrt: return visitUn(B, I, U_FSQRT, I.getArgOperand(0));
    case Intrinsic::floor: return visitUn(B, I, U_FFLOOR, I.getArgOperand(0));
    case Intrinsic::ceil: return visitUn(B, I, U_FCEIL, I.getArgOperand(0));
    case Intrinsic::trunc: return visitUn(B, I, U_FTRUNC, I.getArgOperand(0));
    case Intrinsic::rint: case Intrinsic::nearbyint: return visitUn(B, I, U_FRINT, I.getArgOperand(0));
    case Intrinsic::roundeven: return visitUn(B, I, U_FROUNDEVEN, I.getArgOperand(0));
    case Intrinsic::round: return visitUn(B, I, U_FROUND, I.getArgOperand(0));
    case Intrinsic::is_fpclass: {
      Value *s = get1(I.getArgOperand(0));
      if (isNull(s) || I.getType()->isVectorTy()) { concAll(B, I.getArgOperand(0)); return; }
      sh[&I] = Shadow{B.CreateCall(S.FIsFp, {i32(S.width(I.getArgOperand(0)->getType())),
          i32(cast<ConstantInt>(I.getArgOperand(1))->getZExtValue()), s, conc(B, I.getArgOperand(0))})};
      return;
    }
    case Intrinsic::fma: case Intrinsic::fmuladd: {
      Type *T = I.getType();
      Value *a = get1(I.getArgOperand(0)), *b = get1(I.getArgOperand(1)), *c = get1(I.getArgOperand(2));
      if (isNull(a) && isNull(b) && isNull(c)) return;
      if (!Sx::scalarOk(T)) break;
      sh[&I] = Shadow{B.CreateCall(S.FFma, {i32(S.width(T)), a, conc(B, I.getArgOperand(0)), b, conc(B, I.getArgOperand(1)), c, conc(B, I.getArgOperand(2))})};
      return;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      Type *T = I.getType();
      Value *a = get1(I.getArgOperand(0)), *b = get1(I.getArgOperand(1)), *c = get1(I.getArgOperand(2));
      if (isNull(a) && isNull(b) && isNull(c)) return;
      if (!Sx::scalarOk(T)) break;
      sh[&I] = Shadow{B.CreateCall(S.FFshl, {i32(I.getIntrinsicID() == Intrinsic::fshl ? 0 : 1), i32(S.width(T)), a, conc(B, I.getArgOperand(0)), b, conc(B, I.getArgOperand(1)), c, conc(B, I.getArgOperand(2))})};
      return;
    }
    default: break;
    }
    for (Value *op : I.args())
      if (!op->getType()->isMetadataTy()) concAll(B, op);
  }
};

// Vector intrinsics without a vector form in the runtime become scalar ones,
// lane by lane (a reduction folds its lanes from first to last).
static void scalarizeIntrinsics(Function &F) {
  std::vector<IntrinsicInst *> work;
  for (auto &I : instructions(F))
    if (auto *II = dyn_cast<IntrinsicInst>(&I)) work.push_back(II);
  for (IntrinsicInst *II : work) {
    IRBuilder<> B(II);
    if (II->getType()->isFPOrFPVectorTy()) B.setFastMathFlags(II->getFastMathFlags());
    Intrinsic::ID id = II->getIntrinsicID();
    Value *R = nullptr;
    if (id == Intrinsic::fma || id == Intrinsic::fmuladd || id == Intrinsic::fshl || id == Intrinsic::fshr) {
      auto *VT = dyn_cast<FixedVectorType>(II->getType());
      if (!VT) continue;
      R = PoisonValue::get(VT);
      for (unsigned i = 0; i < VT->getNumElements(); ++i) {
        Value *x[3];
        for (int k = 0; k < 3; ++k) x[k] = B.CreateExtractElement(II->getArgOperand(k), B.getInt32(i));
        R = B.CreateInsertElement(R, B.CreateIntrinsic(VT->getElementType(), id, {x[0], x[1], x[2]}), B.getInt32(i));
      }
    } else {
      unsigned vec = id == Intrinsic::vector_reduce_fadd || id == Intrinsic::vector_reduce_fmul ? 1 : 0;
      std::function<Value *(Value *, Value *)> op;
      auto bin = [&](Intrinsic::ID i) { op = [&B, i](Value *a, Value *b) -> Value * { return B.CreateBinaryIntrinsic(i, a, b); }; };
      switch (id) {
      case Intrinsic::vector_reduce_fadd: op = [&](Value *a, Value *b) { return B.CreateFAdd(a, b); }; break;
      case Intrinsic::vector_reduce_fmul: op = [&](Value *a, Value *b) { return B.CreateFMul(a, b); }; break;
      case Intrinsic::vector_reduce_add: op = [&](Value *a, Value *b) { return B.CreateAdd(a, b); }; break;
      case Intrinsic::vector_reduce_mul: op = [&](Value *a, Value *b) { return B.CreateMul(a, b); }; break;
      case Intrinsic::vector_reduce_and: op = [&](Value *a, Value *b) { return B.CreateAnd(a, b); }; break;
      case Intrinsic::vector_reduce_or: op = [&](Value *a, Value *b) { return B.CreateOr(a, b); }; break;
      case Intrinsic::vector_reduce_xor: op = [&](Value *a, Value *b) { return B.CreateXor(a, b); }; break;
      case Intrinsic::vector_reduce_smax: bin(Intrinsic::smax); break;
      case Intrinsic::vector_reduce_smin: bin(Intrinsic::smin); break;
      case Intrinsic::vector_reduce_umax: bin(Intrinsic::umax); break;
      case Intrinsic::vector_reduce_umin: bin(Intrinsic::umin); break;
      case Intrinsic::vector_reduce_fmax: bin(Intrinsic::maxnum); break;
      case Intrinsic::vector_reduce_fmin: bin(Intrinsic::minnum); break;
      case Intrinsic::vector_reduce_fmaximum: bin(Intrinsic::maximum); break;
      case Intrinsic::vector_reduce_fminimum: bin(Intrinsic::minimum); break;
      default: continue;
      }
      Value *V = II->getArgOperand(vec);
      auto *VT = dyn_cast<FixedVectorType>(V->getType());
      if (!VT) continue;
      R = vec ? II->getArgOperand(0) : nullptr;
      for (unsigned i = 0; i < VT->getNumElements(); ++i) {
        Value *x = B.CreateExtractElement(V, B.getInt32(i));
        R = R ? op(R, x) : x;
      }
    }
    II->replaceAllUsesWith(R);
    II->eraseFromParent();
  }
}

struct SxPass : PassInfoMixin<SxPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Sx S(M);
    std::vector<Function *> fns;
    for (Function &F : M) {
      // runtime calls are inserted: drop attributes they would violate
      F.removeFnAttr(Attribute::Memory);
      F.removeFnAttr(Attribute::NoSync);
      F.removeFnAttr(Attribute::NoFree);
      F.removeFnAttr(Attribute::Speculatable);
      if (F.isDeclaration() || F.hasFnAttribute(Attribute::DisableSanitizerInstrumentation)) continue;
      if (F.hasAvailableExternallyLinkage()) continue;
      if (F.getName().starts_with("__sx") || F.getName().starts_with("llvm.")) continue;
      // std::to_string of a floating-point number: the code generator fails on
      // the instrumented variadic function; a wrapper of vsnprintf, native.
      if (F.isVarArg() && F.getName().contains("__to_xstring")) continue;
      fns.push_back(&F);
    }
    for (Function *F : fns) scalarizeIntrinsics(*F);
    // snprintf of a single signed integer: use the instrumented formatter, whose
    // output stays symbolic.
    for (Function *F : fns) {
      if (F->getName() == "sx_fmt_i64") continue;
      std::vector<CallInst *> calls;
      for (auto &I : instructions(*F))
        if (auto *C = dyn_cast<CallInst>(&I)) {
          Function *Cal = C->getCalledFunction();
          if (!Cal || Cal->getName() != "snprintf" || C->arg_size() != 4) continue;
          StringRef fmt;
          if (!getConstantStringInfo(C->getArgOperand(2), fmt)) continue;
          Type *T = C->getArgOperand(3)->getType();
          if (!T->isIntegerTy(32) && !T->isIntegerTy(64)) continue;
          if (fmt == "%d" || fmt == "%i" || fmt == "%ld" || fmt == "%li" || fmt == "%lld" || fmt == "%lli") calls.push_back(C);
        }
      for (CallInst *C : calls) {
        IRBuilder<> B(C);
        auto Fn = M.getOrInsertFunction("sx_fmt_i64", B.getInt32Ty(), B.getPtrTy(), B.getInt64Ty(), B.getInt64Ty());
        Value *R = B.CreateCall(Fn, {C->getArgOperand(0), C->getArgOperand(1), B.CreateSExt(C->getArgOperand(3), B.getInt64Ty())});
        C->replaceAllUsesWith(R);
        C->eraseFromParent();
      }
    }
    for (Function *F : fns) {
      for (auto &I : instructions(*F))
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          CB->removeFnAttr(Attribute::Memory);
          // The code generator would expand these into uninstrumented code.
          Function *Cal = CB->getCalledFunction();
          if (Cal && (Cal->getName() == "bcmp" || Cal->getName().starts_with("mem") || Cal->getName().starts_with("str"))) CB->addFnAttr(Attribute::NoBuiltin);
        }
      FnInstr FI(S, *F);
      FI.run();
    }
    // Registry of instrumented functions: one section entry per function.
    std::vector<GlobalValue *> keep;
    for (Function *F : fns) {
      auto *G = new GlobalVariable(M, S.P, true, GlobalValue::PrivateLinkage, F, "__sx_reg");
      G->setSection("sx_fns");
      if (F->hasComdat()) G->setComdat(F->getComdat());
      keep.push_back(G);
    }
    appendToCompilerUsed(M, keep);
    appendToUsed(M, {});
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SxPass", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback(
                [](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SxPass()); });
          }};
}
