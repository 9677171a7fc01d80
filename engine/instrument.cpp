// sx-instrument: rewrites LLVM bitcode so that every scalar SSA value carries a
// "shadow" (pointer to a symbolic expression node, null when concrete).  The
// resulting module runs natively; the runtime (runtime.cpp) builds SMT terms
// for everything that depends on symbolic inputs and forks at branches whose
// condition is symbolic.
#include "llvm/ADT/SmallVector.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

namespace {
const std::map<std::string, int> Math1 = {
    {"sqrt", 1},  {"exp", 2},    {"sin", 3},  {"cos", 4},   {"tan", 5},
    {"log", 6},   {"fabs", 7},   {"floor", 8}, {"ceil", 9}, {"acos", 10},
    {"asin", 11}, {"atan", 12},  {"round", 13}, {"trunc", 14}, {"log2", 15}, {"rint", 16},
    {"nearbyint", 17}, {"expm1", 18}, {"log10", 19}, {"log1p", 20}};
const std::map<std::string, int> Math2 = {
    {"pow", 1}, {"fmod", 2}, {"atan2", 3}, {"fmin", 4}, {"fmax", 5}, {"copysign", 6}, {"hypot", 7}};

struct Inst {
    Module &M;
    LLVMContext &C;
    const DataLayout &DL;
    Type *P, *I64, *I32, *I8, *F64, *V, *I1;
    Constant *Null;
    GlobalVariable *Args, *Callee, *Ret;
    std::map<std::string, FunctionCallee> Cache;

    Inst(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout())
    {
        P    = PointerType::getUnqual(C);
        I64  = Type::getInt64Ty(C);
        I32  = Type::getInt32Ty(C);
        I8   = Type::getInt8Ty(C);
        I1   = Type::getInt1Ty(C);
        F64  = Type::getDoubleTy(C);
        V    = Type::getVoidTy(C);
        Null = ConstantPointerNull::get(cast<PointerType>(P));
        auto ext = [&](const char *n, Type *t) {
            return new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage,
                                      nullptr, n);
        };
        Args   = ext("__sx_args", ArrayType::get(P, 64));
        Callee = ext("__sx_callee", P);
        Ret    = ext("__sx_ret", P);
    }
    FunctionCallee fn(const char *n, Type *r, ArrayRef<Type *> a)
    {
        auto it = Cache.find(n);
        if (it != Cache.end())
            return it->second;
        auto f = M.getOrInsertFunction(n, FunctionType::get(r, a, false));
        if (auto *F = dyn_cast<Function>(f.getCallee()))
            F->setDoesNotThrow();
        Cache[n] = f;
        return f;
    }

    // --- per function state
    Function *F;
    std::map<Value *, Value *> Sh;
    std::vector<PHINode *> Phis;

    Value *sh(Value *v)
    {
        if (isa<Constant>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v) ||
            isa<BasicBlock>(v))
            return Null;
        auto it = Sh.find(v);
        return it == Sh.end() ? Null : it->second;
    }
    bool nul(Value *v)
    {
        return sh(v) == Null;
    }
    bool isFP(Type *t)
    {
        return t->isDoubleTy() || t->isFloatTy();
    }
    bool isScalar(Type *t)
    {
        return isFP(t) || (t->isIntegerTy() && t->getIntegerBitWidth() <= 64);
    }
    // widen a scalar to i64 bits (ints zero-extended, fp via bits)
    Value *toI64(IRBuilder<> &B, Value *v)
    {
        Type *t = v->getType();
        if (t->isFloatTy()) {
            v = B.CreateFPExt(v, F64);
            t = F64;
        }
        if (t->isDoubleTy())
            return B.CreateBitCast(v, I64);
        if (t->isPointerTy())
            return B.CreatePtrToInt(v, I64);
        if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64)
            return B.CreateZExt(v, I64);
        return ConstantInt::get(I64, 0);
    }
    Value *fromI64(IRBuilder<> &B, Value *v, Type *t)
    {
        if (t->isIntegerTy(64))
            return v;
        return B.CreateTrunc(v, t);
    }
    // kind code for runtime: >0 bits of int, -64 double, -32 float
    Value *kind(Type *t)
    {
        int k = 0;
        if (t->isDoubleTy())
            k = -64;
        else if (t->isFloatTy())
            k = -32;
        else if (t->isIntegerTy())
            k = t->getIntegerBitWidth();
        return ConstantInt::get(I32, k, true);
    }
    Value *c32(int v)
    {
        return ConstantInt::get(I32, v, true);
    }
    // Make a symbolic integer concrete (forking); returns replacement value
    Value *concretize(IRBuilder<> &B, Value *v)
    {
        if (nul(v))
            return v;
        auto f   = fn("__sx_conc", I64, {P, I64, I32});
        Value *r = B.CreateCall(f, {sh(v), toI64(B, v), kind(v->getType())});
        return fromI64(B, r, v->getType());
    }
    Value *branchOn(IRBuilder<> &B, Value *c)
    {
        if (nul(c))
            return c;
        auto f   = fn("__sx_branch", I32, {P, I32});
        Value *r = B.CreateCall(f, {sh(c), B.CreateZExt(c, I32)});
        return B.CreateTrunc(r, I1);
    }

    void handleCall(CallBase *CB)
    {
        IRBuilder<> B(CB);
        Function *cal = CB->getCalledFunction();
        if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
            handleIntrinsic(II);
            return;
        }
        if (CB->isInlineAsm())
            return;
        std::string name = cal ? cal->getName().str() : "";
        if (name.rfind("__sx_", 0) == 0) {
            return;
        }
        // harness primitives implemented by the runtime; they take
        // shadows the ordinary way through __sx_args.
        bool decl = cal && cal->isDeclaration();
        if (decl) {
            auto setRes = [&](Value *s) { Sh[CB] = s; };
            auto m1     = Math1.find(name);
            if (m1 != Math1.end() && CB->arg_size() == 1 &&
                CB->getArgOperand(0)->getType()->isDoubleTy()) {
                if (!nul(CB->getArgOperand(0))) {
                    IRBuilder<> A(CB->getNextNode() ? CB->getNextNode()
                                                    : CB);
                    setRes(insertAfter(CB, [&](IRBuilder<> &A) {
                        return A.CreateCall(fn("__sx_math1", P, {I32, P}),
                                            {c32(m1->second),
                                             sh(CB->getArgOperand(0))});
                    }));
                }
                return;
            }
            auto m2 = Math2.find(name);
            if (m2 != Math2.end() && CB->arg_size() == 2 &&
                CB->getArgOperand(0)->getType()->isDoubleTy()) {
                Value *a = CB->getArgOperand(0), *b = CB->getArgOperand(1);
                if (!nul(a) || !nul(b)) {
                    setRes(insertAfter(CB, [&](IRBuilder<> &A) {
                        return A.CreateCall(
                            fn("__sx_math2", P, {I32, P, P, F64, F64}),
                            {c32(m2->second), sh(a), sh(b), a, b});
                    }));
                }
                return;
            }
            if (name == "memcpy" || name == "memmove") {
                B.CreateCall(fn("__sx_memcpy", V, {P, P, I64}),
                             {CB->getArgOperand(0), CB->getArgOperand(1),
                              concretize(B, CB->getArgOperand(2))});
                return;
            }
            if (name == "memset") {
                B.CreateCall(fn("__sx_memset", V, {P, P, I64}),
                             {CB->getArgOperand(0), sh(CB->getArgOperand(1)),
                              concretize(B, CB->getArgOperand(2))});
                return;
            }
            if (name.rfind("_Znwm", 0) == 0 || name.rfind("_Znam", 0) == 0 || name == "malloc") {
                // fresh memory carries no terms left by its last owner
                insertAfter(CB, [&](IRBuilder<> &A) -> Value * {
                    A.CreateCall(fn("__sx_memset", V, {P, P, I64}), {CB, Null, CB->getArgOperand(0)});
                    return Null;
                });
            }
            if (name == "memcmp" || name == "bcmp" || name == "strlen" || name == "memchr") {
                // replaced by an instrumented implementation in sxlib
            }
        }
        // generic call
        unsigned n = CB->arg_size();
        bool sxapi = decl && name.rfind("sx_", 0) == 0;
        Value *any = nullptr;
        for (unsigned i = 0; i < n && i < 64; i++) {
            Value *a = CB->getArgOperand(i);
            Value *s;
            if (CB->isByValArgument(i))
                s = a; // original object, callee copies its shadow
            else
                s = sh(a);
            if (decl && !sxapi) {
                if (!CB->isByValArgument(i) && s != Null) {
                    any = any ? B.CreateOr(any, B.CreateIsNotNull(s))
                              : B.CreateIsNotNull(s);
                }
                continue;
            }
            B.CreateStore(s, B.CreateConstInBoundsGEP2_64(
                                 Args->getValueType(), Args, 0, i));
        }
        if (decl && !sxapi) {
            if (any) {
                Value *nm = B.CreateGlobalStringPtr(name);
                B.CreateCall(fn("__sx_extern", V, {P, I1}), {nm, any});
            }
            return;
        }
        B.CreateStore(CB->getCalledOperand(), Callee);
        Type *rt = CB->getType();
        bool want = !rt->isVoidTy() && !rt->isPointerTy() && !rt->isVectorTy();
        B.CreateStore(Null, Ret);
        if (want) {
            Sh[CB] = insertAfter(CB, [&](IRBuilder<> &A) {
                auto *l = A.CreateLoad(P, Ret);
                A.CreateStore(Null, Ret);
                return l;
            });
        }
    }

    template <class Fn> Value *insertAfter(CallBase *CB, Fn f)
    {
        if (auto *IV = dyn_cast<InvokeInst>(CB)) {
            BasicBlock *nd = IV->getNormalDest();
            // edges were split beforehand: nd has a single predecessor
            IRBuilder<> A(&*nd->getFirstInsertionPt());
            return f(A);
        }
        IRBuilder<> A(CB->getNextNode());
        return f(A);
    }

    void handleIntrinsic(IntrinsicInst *II)
    {
        IRBuilder<> B(II);
        IRBuilder<> A(II->getNextNode());
        switch (II->getIntrinsicID()) {
        case Intrinsic::memcpy:
        case Intrinsic::memmove:
        case Intrinsic::memcpy_inline:
            B.CreateCall(fn("__sx_memcpy", V, {P, P, I64}),
                         {II->getArgOperand(0), II->getArgOperand(1),
                          B.CreateZExtOrTrunc(
                              concretize(B, II->getArgOperand(2)), I64)});
            return;
        case Intrinsic::memset:
            B.CreateCall(fn("__sx_memset", V, {P, P, I64}),
                         {II->getArgOperand(0), sh(II->getArgOperand(1)),
                          B.CreateZExtOrTrunc(
                              concretize(B, II->getArgOperand(2)), I64)});
            return;
        default:
            break;
        }
        static const std::map<unsigned, int> m1 = {
            {Intrinsic::sqrt, 1},  {Intrinsic::exp, 2},   {Intrinsic::sin, 3},
            {Intrinsic::cos, 4},   {Intrinsic::log, 6},   {Intrinsic::fabs, 7},
            {Intrinsic::floor, 8}, {Intrinsic::ceil, 9},  {Intrinsic::round, 13},
            {Intrinsic::trunc, 14}, {Intrinsic::rint, 16}, {Intrinsic::nearbyint, 17}};
        static const std::map<unsigned, int> m2 = {
            {Intrinsic::pow, 1},
            {Intrinsic::minnum, 4},
            {Intrinsic::maxnum, 5},
            {Intrinsic::copysign, 6}};
        auto id = II->getIntrinsicID();
        auto i1 = m1.find(id);
        if (i1 != m1.end() && II->getType()->isDoubleTy()) {
            if (!nul(II->getArgOperand(0)))
                Sh[II] = A.CreateCall(
                    fn("__sx_math1", P, {I32, P}),
                    {c32(i1->second), sh(II->getArgOperand(0))});
            return;
        }
        auto i2 = m2.find(id);
        if (i2 != m2.end() && II->getType()->isDoubleTy()) {
            Value *a = II->getArgOperand(0), *b = II->getArgOperand(1);
            if (!nul(a) || !nul(b))
                Sh[II] = A.CreateCall(
                    fn("__sx_math2", P, {I32, P, P, F64, F64}),
                    {c32(i2->second), sh(a), sh(b), a, b});
            return;
        }
        if ((id == Intrinsic::fmuladd || id == Intrinsic::fma) &&
            II->getType()->isDoubleTy()) {
            Value *a = II->getArgOperand(0), *b = II->getArgOperand(1),
                  *c = II->getArgOperand(2);
            auto fb = fn("__sx_fbin", P, {I32, P, P, F64, F64});
            Value *m = A.CreateCall(fb, {c32(Instruction::FMul), sh(a), sh(b), a, b});
            Sh[II] = A.CreateCall(
                fb, {c32(Instruction::FAdd), m, sh(c), A.CreateFMul(a, b), c});
            return;
        }
        if (id == Intrinsic::is_fpclass) {
            if (!nul(II->getArgOperand(0)))
                Sh[II] = A.CreateCall(
                    fn("__sx_fpclass", P, {P, I32}),
                    {sh(II->getArgOperand(0)), II->getArgOperand(1)});
            return;
        }
        // everything else: no symbolic operands allowed
        switch (id) {
        case Intrinsic::dbg_value:
        case Intrinsic::dbg_declare:
        case Intrinsic::dbg_label:
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end:
        case Intrinsic::assume:
        case Intrinsic::experimental_noalias_scope_decl:
            return;
        case Intrinsic::expect:
        case Intrinsic::annotation:
            Sh[II] = sh(II->getArgOperand(0));
            return;
        case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
            Value *a = II->getArgOperand(0), *b = II->getArgOperand(1);
            if (nul(a) && nul(b)) return;
            int pr = id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT :
                     id == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
            Value *c = A.CreateICmp((CmpInst::Predicate)pr, a, b);
            Value *sc = A.CreateCall(fn("__sx_icmp", P, {I32, P, P, I64, I64, I32}),
                 {c32(pr), sh(a), sh(b), toI64(A, a), toI64(A, b), kind(a->getType())});
            Sh[II] = A.CreateCall(fn("__sx_select", P, {P, I32, P, P, I64, I64, I32}),
                 {sc, A.CreateZExt(c, I32), sh(a), sh(b), toI64(A, a), toI64(A, b), kind(a->getType())});
            return;
        }
        default:
            break;
        }
        Value *any = nullptr;
        for (unsigned i = 0; i < II->arg_size(); i++) {
            Value *s = sh(II->getArgOperand(i));
            if (s != Null)
                any = any ? B.CreateOr(any, B.CreateIsNotNull(s))
                          : B.CreateIsNotNull(s);
        }
        if (any)
            B.CreateCall(fn("__sx_extern", V, {P, I1}),
                         {B.CreateGlobalStringPtr(
                              II->getCalledFunction()->getName()),
                          any});
    }

    void handle(Instruction *I)
    {
        Type *T = I->getType();
        if (auto *PN = dyn_cast<PHINode>(I)) {
            (void)PN;
            return;
        }
        if (auto *CB = dyn_cast<CallBase>(I)) {
            handleCall(CB);
            return;
        }
        IRBuilder<> B(I);
        if (auto *BR = dyn_cast<BranchInst>(I)) {
            if (BR->isConditional())
                BR->setCondition(branchOn(B, BR->getCondition()));
            return;
        }
        if (auto *SW = dyn_cast<SwitchInst>(I)) {
            if (!nul(SW->getCondition()))
                SW->setCondition(concretize(B, SW->getCondition()));
            return;
        }
        if (auto *AL = dyn_cast<AllocaInst>(I)) {
            auto sz = AL->getAllocationSize(DL);
            if (sz && !sz->isScalable()) {
                IRBuilder<> A(I->getNextNode());
                A.CreateCall(fn("__sx_memset", V, {P, P, I64}),
                             {AL, Null, ConstantInt::get(I64, sz->getFixedValue())});
            }
            return;
        }
        if (auto *R = dyn_cast<ReturnInst>(I)) {
            if (R->getReturnValue())
                B.CreateStore(sh(R->getReturnValue()), Ret);
            return;
        }
        if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
            for (unsigned i = 1; i < G->getNumOperands(); i++) {
                Value *op = G->getOperand(i);
                if (!nul(op))
                    G->setOperand(i, concretize(B, op));
            }
            return;
        }
        if (auto *L = dyn_cast<LoadInst>(I)) {
            if (T->isPointerTy() || T->isVectorTy())
                return;
            if (isScalar(T) || T->isAggregateType()) {
                IRBuilder<> A(I->getNextNode());
                uint64_t sz = DL.getTypeStoreSize(T);
                if (isScalar(T)) {
                    Sh[I] = A.CreateCall(
                        fn("__sx_load", P, {P, I32, I32}),
                        {L->getPointerOperand(), c32(sz), kind(T)});
                } else
                    Sh[I] = loadAgg(A, L->getPointerOperand(), T);
            }
            return;
        }
        if (auto *S = dyn_cast<StoreInst>(I)) {
            Value *v  = S->getValueOperand();
            Type *vt  = v->getType();
            uint64_t sz = DL.getTypeStoreSize(vt);
            if (vt->isAggregateType()) {
                storeAgg(B, S->getPointerOperand(), vt, sh(v));
                return;
            }
            // store after the instruction so recorded bytes are current
            IRBuilder<> A(I->getNextNode());
            A.CreateCall(fn("__sx_store", V, {P, I32, P}),
                         {S->getPointerOperand(), c32(sz), sh(v)});
            return;
        }
        if (auto *BO = dyn_cast<BinaryOperator>(I)) {
            Value *a = BO->getOperand(0), *b = BO->getOperand(1);
            if (nul(a) && nul(b))
                return;
            if (!isScalar(T)) {
                return;
            }
            IRBuilder<> A(I->getNextNode());
            if (isFP(T)) {
                if (T->isFloatTy()) {
                    Sh[I] = A.CreateCall(fn("__sx_fbin", P, {I32, P, P, F64, F64}),
                                         {c32(BO->getOpcode()), sh(a), sh(b),
                                          A.CreateFPExt(a, F64), A.CreateFPExt(b, F64)});
                    return;
                }
                Sh[I] = A.CreateCall(fn("__sx_fbin", P, {I32, P, P, F64, F64}),
                                     {c32(BO->getOpcode()), sh(a), sh(b), a, b});
            } else {
                if (BO->getOpcode() == Instruction::SDiv || BO->getOpcode() == Instruction::UDiv ||
                    BO->getOpcode() == Instruction::SRem || BO->getOpcode() == Instruction::URem) {
                    // the concrete shadow value may be a zero divisor on a forced path
                    Value *nb = B.CreateCall(fn("__sx_nz", I64, {P, I64}), {sh(b), toI64(B, b)});
                    BO->setOperand(1, fromI64(B, nb, T));
                    Sh[I] = A.CreateCall(fn("__sx_ibin", P, {I32, P, P, I64, I64, I32}),
                        {c32(BO->getOpcode()), sh(a), sh(b), toI64(A, a), toI64(A, b), kind(T)});
                    return;
                }
                Sh[I] = A.CreateCall(
                    fn("__sx_ibin", P, {I32, P, P, I64, I64, I32}),
                    {c32(BO->getOpcode()), sh(a), sh(b), toI64(A, a),
                     toI64(A, b), kind(T)});
            }
            return;
        }
        if (auto *U = dyn_cast<UnaryOperator>(I)) {
            if (!nul(U->getOperand(0)) && isFP(T)) {
                IRBuilder<> A(I->getNextNode());
                Sh[I] = A.CreateCall(fn("__sx_fneg", P, {P}),
                                     {sh(U->getOperand(0))});
            }
            return;
        }
        if (auto *Cm = dyn_cast<CmpInst>(I)) {
            Value *a = Cm->getOperand(0), *b = Cm->getOperand(1);
            if (nul(a) && nul(b))
                return;
            if (!isScalar(a->getType()))
                return;
            IRBuilder<> A(I->getNextNode());
            if (isFP(a->getType())) {
                Value *x = a, *y = b;
                if (a->getType()->isFloatTy()) {
                    x = A.CreateFPExt(a, F64);
                    y = A.CreateFPExt(b, F64);
                }
                Sh[I] = A.CreateCall(fn("__sx_fcmp", P, {I32, P, P, F64, F64}),
                                     {c32(Cm->getPredicate()), sh(a), sh(b), x, y});
            } else
                Sh[I] = A.CreateCall(
                    fn("__sx_icmp", P, {I32, P, P, I64, I64, I32}),
                    {c32(Cm->getPredicate()), sh(a), sh(b), toI64(A, a),
                     toI64(A, b), kind(a->getType())});
            return;
        }
        if (auto *S = dyn_cast<SelectInst>(I)) {
            Value *c = S->getCondition(), *a = S->getTrueValue(),
                  *b = S->getFalseValue();
            if (c->getType()->isVectorTy())
                return;
            if (!isScalar(T)) {
                if (!nul(c))
                    S->setCondition(branchOn(B, c));
                if (T->isAggregateType() && !(nul(a) && nul(b)))
                    Sh[I] = B.CreateSelect(S->getCondition(), sh(a), sh(b));
                return;
            }
            if (nul(c) && nul(a) && nul(b))
                return;
            IRBuilder<> A(I->getNextNode());
            Sh[I] = A.CreateCall(
                fn("__sx_select", P, {P, I32, P, P, I64, I64, I32}),
                {sh(c), A.CreateZExt(c, I32), sh(a), sh(b), toI64(A, a),
                 toI64(A, b), kind(T)});
            return;
        }
        if (auto *CI = dyn_cast<CastInst>(I)) {
            Value *a = CI->getOperand(0);
            if (nul(a) || a->getType()->isVectorTy() || T->isVectorTy())
                return;
            IRBuilder<> A(I->getNextNode());
            switch (CI->getOpcode()) {
            case Instruction::Trunc:
            case Instruction::ZExt:
            case Instruction::SExt:
                if (isScalar(T) && isScalar(a->getType()))
                    Sh[I] = A.CreateCall(fn("__sx_icast", P, {I32, P, I32, I32}),
                                         {c32(CI->getOpcode()), sh(a),
                                          kind(a->getType()), kind(T)});
                return;
            case Instruction::FPTrunc:
            case Instruction::FPExt:
                Sh[I] = A.CreateCall(fn("__sx_fpcast", P, {P, I32}),
                                     {sh(a), kind(T)});
                return;
            case Instruction::BitCast:
                Sh[I] = sh(a);
                return;
            case Instruction::FPToSI:
            case Instruction::FPToUI: {
                bool sg  = CI->getOpcode() == Instruction::FPToSI;
                Value *d = a->getType()->isFloatTy() ? B.CreateFPExt(a, F64) : a;
                // may concretize: returns the concrete value, shadow in __sx_ret
                Value *r = B.CreateCall(
                    fn("__sx_fptoi", I64, {P, F64, I32, I32}),
                    {sh(a), d, kind(T), c32(sg)});
                Value *nv = fromI64(B, r, T);
                Value *s  = B.CreateLoad(P, Ret);
                B.CreateStore(Null, Ret);
                I->replaceAllUsesWith(nv);
                Sh[nv] = s;
                Dead.push_back(I);
                return;
            }
            case Instruction::SIToFP:
            case Instruction::UIToFP: {
                bool sg = CI->getOpcode() == Instruction::SIToFP;
                Value *r = B.CreateCall(
                    fn("__sx_itofp", F64, {P, I64, I32, I32}),
                    {sh(a), toI64(B, a), kind(a->getType()), c32(sg)});
                Value *nv = T->isFloatTy() ? B.CreateFPTrunc(r, T) : r;
                Value *s  = B.CreateLoad(P, Ret);
                B.CreateStore(Null, Ret);
                I->replaceAllUsesWith(nv);
                Sh[nv] = s;
                Dead.push_back(I);
                return;
            }
            case Instruction::IntToPtr:
                I->setOperand(0, concretize(B, a));
                return;
            default:
                return;
            }
        }
        if (auto *EV = dyn_cast<ExtractValueInst>(I)) {
            Value *s = sh(EV->getAggregateOperand());
            if (s == Null)
                return;
            for (unsigned ix : EV->indices())
                s = B.CreateCall(fn("__sx_aggget", P, {P, I32}), {s, c32(ix)});
            Sh[I] = s;
            return;
        }
        if (auto *IV = dyn_cast<InsertValueInst>(I)) {
            Value *sa = sh(IV->getAggregateOperand());
            Value *sv = sh(IV->getInsertedValueOperand());
            if (sa == Null && sv == Null)
                return;
            auto idx = IV->getIndices();
            if (idx.size() == 1)
                Sh[I] = B.CreateCall(fn("__sx_aggset", P, {P, I32, P}),
                                     {sa, c32(idx[0]), sv});
            else if (idx.size() == 2) {
                Value *in = B.CreateCall(fn("__sx_aggget", P, {P, I32}),
                                         {sa, c32(idx[0])});
                in        = B.CreateCall(fn("__sx_aggset", P, {P, I32, P}),
                                  {in, c32(idx[1]), sv});
                Sh[I]     = B.CreateCall(fn("__sx_aggset", P, {P, I32, P}),
                                     {sa, c32(idx[0]), in});
            }
            return;
        }
        if (isa<FreezeInst>(I)) {
            Sh[I] = sh(I->getOperand(0));
            return;
        }
    }
    std::vector<Instruction *> Dead;

    Value *loadAgg(IRBuilder<> &A, Value *p, Type *T)
    {
        Value *agg = Null;
        unsigned n = T->isStructTy() ? T->getStructNumElements()
                                     : T->getArrayNumElements();
        if (n > 64)
            return Null;
        for (unsigned i = 0; i < n; i++) {
            Type *et = T->isStructTy() ? T->getStructElementType(i)
                                       : T->getArrayElementType();
            uint64_t off =
                T->isStructTy()
                    ? (uint64_t)DL.getStructLayout(cast<StructType>(T))
                          ->getElementOffset(i)
                    : i * DL.getTypeAllocSize(et);
            Value *q = A.CreateConstGEP1_64(I8, p, off);
            Value *s = Null;
            if (isScalar(et))
                s = A.CreateCall(fn("__sx_load", P, {P, I32, I32}),
                                 {q, c32(DL.getTypeStoreSize(et)), kind(et)});
            else if (et->isAggregateType())
                s = loadAgg(A, q, et);
            if (s != Null)
                agg = A.CreateCall(fn("__sx_aggset", P, {P, I32, P}),
                                   {agg, c32(i), s});
        }
        return agg;
    }
    void storeAgg(IRBuilder<> &B0, Value *p, Type *T, Value *agg)
    {
        // emitted after the store
        Instruction *I = &*B0.GetInsertPoint();
        IRBuilder<> A(I->getNextNode());
        storeAggRec(A, p, T, agg);
    }
    void storeAggRec(IRBuilder<> &A, Value *p, Type *T, Value *agg)
    {
        unsigned n = T->isStructTy() ? T->getStructNumElements()
                                     : T->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) {
            Type *et = T->isStructTy() ? T->getStructElementType(i)
                                       : T->getArrayElementType();
            uint64_t off =
                T->isStructTy()
                    ? (uint64_t)DL.getStructLayout(cast<StructType>(T))
                          ->getElementOffset(i)
                    : i * DL.getTypeAllocSize(et);
            Value *q = A.CreateConstGEP1_64(I8, p, off);
            Value *s = agg == Null ? (Value *)Null
                                   : A.CreateCall(fn("__sx_aggget", P, {P, I32}),
                                                  {agg, c32(i)});
            if (et->isAggregateType())
                storeAggRec(A, q, et, s);
            else
                A.CreateCall(fn("__sx_store", V, {P, I32, P}),
                             {q, c32(DL.getTypeStoreSize(et)),
                              isScalar(et) ? s : (Value *)Null});
        }
    }

    void run(Function &Fn)
    {
        F = &Fn;
        Sh.clear();
        Phis.clear();
        Dead.clear();
        // split invoke normal edges with several predecessors
        std::vector<InvokeInst *> invs;
        for (auto &BB : Fn)
            if (auto *IV = dyn_cast<InvokeInst>(BB.getTerminator()))
                invs.push_back(IV);
        for (auto *IV : invs)
            if (!IV->getNormalDest()->getSinglePredecessor() ||
                isa<PHINode>(IV->getNormalDest()->front()))
                SplitEdge(IV->getParent(), IV->getNormalDest());
        // reachable blocks in an order such that defs precede uses (RPO)
        std::vector<BasicBlock *> order;
        {
            std::set<BasicBlock *> seen;
            std::vector<std::pair<BasicBlock *, unsigned>> st;
            std::vector<BasicBlock *> post;
            st.push_back({&Fn.getEntryBlock(), 0});
            seen.insert(&Fn.getEntryBlock());
            while (!st.empty()) {
                auto &[b, i] = st.back();
                auto *t      = b->getTerminator();
                if (i < t->getNumSuccessors()) {
                    BasicBlock *s = t->getSuccessor(i++);
                    if (seen.insert(s).second)
                        st.push_back({s, 0});
                } else {
                    post.push_back(b);
                    st.pop_back();
                }
            }
            order.assign(post.rbegin(), post.rend());
        }
        std::vector<Instruction *> work;
        for (auto *b : order)
            for (auto &I : *b)
                work.push_back(&I);
        // prologue
        {
            IRBuilder<> B(&*Fn.getEntryBlock().getFirstInsertionPt());
            bool need = false;
            for (auto &a : Fn.args())
                if (isScalar(a.getType()) || a.getType()->isAggregateType() ||
                    a.hasByValAttr())
                    need = true;
            if (need) {
                Value *tok = B.CreateLoad(P, Callee);
                Value *ok  = B.CreateICmpEQ(tok, &Fn);
                unsigned i = 0;
                for (auto &a : Fn.args()) {
                    if (i < 64) {
                        Value *slot = B.CreateConstInBoundsGEP2_64(
                            Args->getValueType(), Args, 0, i);
                        if (a.hasByValAttr()) {
                            Value *s = B.CreateSelect(
                                ok, B.CreateLoad(P, slot), Null);
                            B.CreateCall(
                                fn("__sx_byval", V, {P, P, I64}),
                                {&a, s,
                                 ConstantInt::get(
                                     I64, DL.getTypeAllocSize(
                                              a.getParamByValType()))});
                        } else if (isScalar(a.getType()) ||
                                   a.getType()->isAggregateType()) {
                            Sh[&a] = B.CreateSelect(
                                ok, B.CreateLoad(P, slot), Null);
                        }
                    }
                    i++;
                }
                B.CreateStore(Null, Callee);
            }
        }
        // phi shadows first (placeholders)
        for (auto *I : work)
            if (auto *PN = dyn_cast<PHINode>(I))
                if (isScalar(PN->getType()) ||
                    PN->getType()->isAggregateType()) {
                    PHINode *s = PHINode::Create(P, PN->getNumIncomingValues(),
                                                 "", PN);
                    Sh[PN]     = s;
                    Phis.push_back(PN);
                }
        for (auto *I : work)
            handle(I);
        for (auto *PN : Phis) {
            auto *s = cast<PHINode>(Sh[PN]);
            for (unsigned i = 0; i < PN->getNumIncomingValues(); i++)
                s->addIncoming(sh(PN->getIncomingValue(i)),
                               PN->getIncomingBlock(i));
        }
        for (auto *I : Dead)
            I->eraseFromParent();
    }
};
} // namespace

int main(int argc, char **argv)
{
    LLVMContext C;
    SMDiagnostic e;
    auto M = parseIRFile(argv[1], e, C);
    if (!M) {
        e.print(argv[0], errs());
        return 1;
    }
    // sxl_<name> replaces the library function <name>; --stub=a=b replaces any
    // function a by the harness function b
    {
        std::vector<std::pair<std::string, std::string>> rep;
        for (auto &f : *M)
            if (f.getName().starts_with("sxl_") && !f.isDeclaration())
                rep.push_back({f.getName().substr(4).str(), f.getName().str()});
        for (int i = 3; i < argc; i++) {
            StringRef a(argv[i]);
            if (a.consume_front("--stub=")) {
                auto p = a.split('=');
                rep.push_back({p.first.str(), p.second.str()});
            }
        }
        for (auto &r : rep) {
            Function *f = M->getFunction(r.first), *g = M->getFunction(r.second);
            if (!g)
                errs() << "stub: no replacement function " << r.second << "\n";
            if (!f || !g)
                continue;
            f->replaceAllUsesWith(g);
        }
    }
    // integer intrinsics as plain arithmetic
    for (auto &f : *M) {
        std::vector<IntrinsicInst *> l;
        for (auto &i : instructions(f))
            if (auto *ii = dyn_cast<IntrinsicInst>(&i))
                if (ii->getType()->isIntegerTy())
                    l.push_back(ii);
        for (auto *ii : l) {
            IRBuilder<> B(ii);
            Value *r = nullptr;
            auto A = [&](int k) { return ii->getArgOperand(k); };
            auto mm = [&](CmpInst::Predicate p) {
                r = B.CreateSelect(B.CreateICmp(p, A(0), A(1)), A(0), A(1));
            };
            switch (ii->getIntrinsicID()) {
            case Intrinsic::abs:
                r = B.CreateSelect(B.CreateICmpSLT(A(0), ConstantInt::get(A(0)->getType(), 0)),
                                   B.CreateNeg(A(0)), A(0));
                break;
            case Intrinsic::smin: mm(CmpInst::ICMP_SLT); break;
            case Intrinsic::smax: mm(CmpInst::ICMP_SGT); break;
            case Intrinsic::umin: mm(CmpInst::ICMP_ULT); break;
            case Intrinsic::umax: mm(CmpInst::ICMP_UGT); break;
            case Intrinsic::usub_sat:
                r = B.CreateSelect(B.CreateICmpULT(A(0), A(1)), ConstantInt::get(A(0)->getType(), 0),
                                   B.CreateSub(A(0), A(1)));
                break;
            default: break;
            }
            if (r) {
                ii->replaceAllUsesWith(r);
                ii->eraseFromParent();
            }
        }
    }
    std::vector<Function *> fs;
    for (auto &f : *M)
        if (!f.isDeclaration() && !f.getName().starts_with("__sx_"))
            fs.push_back(&f);
    Inst I(*M);
    for (auto *f : fs) {
        // shadow bookkeeping writes memory: drop attributes that lie
        f->removeFnAttr(Attribute::Memory);
        f->removeFnAttr(Attribute::WillReturn);
        f->removeFnAttr(Attribute::NoSync);
        f->removeFnAttr(Attribute::Speculatable);
        I.run(*f);
    }
    for (auto *f : fs)
        for (auto &i : instructions(f))
            if (auto *cb = dyn_cast<CallBase>(&i))
                if (!cb->isInlineAsm() && !isa<IntrinsicInst>(cb))
                    cb->removeFnAttr(Attribute::Memory);
    if (verifyModule(*M, &errs())) {
        errs() << "verification failed\n";
        return 1;
    }
    std::error_code ec;
    raw_fd_ostream o(argv[2], ec);
    WriteBitcodeToFile(*M, o);
    return 0;
}
