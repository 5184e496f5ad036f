// LLVM-18 pass plugin: rewrites a module so that every scalar SSA value carries a
// symbolic shadow (a Z3_ast, null = concrete).  See DESIGN.md section "Engine".
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Support/CommandLine.h"
#include <cstdlib>
#include <map>
#include <set>
#include <sstream>

using namespace llvm;

namespace {

typedef SmallVector<Value*, 2> SV;

const std::set<std::string> MATH1 = {"sin",  "cos",  "tan",  "asin", "acos",  "atan",  "sinh", "cosh",
                                     "tanh", "asinh", "acosh", "atanh", "exp", "log", "log10", "sqrt",
                                     "fabs", "erf", "erfc", "expm1", "log1p", "floor", "ceil",
                                     "log2", "exp2", "cbrt", "trunc", "round", "rint", "nearbyint"};
const std::set<std::string> MATH2 = {"pow", "atan2", "fmod", "fmin", "fmax", "copysign", "hypot"};

std::vector<std::string> split(const char* s) {
    std::vector<std::string> r;
    if (!s) return r;
    std::stringstream ss(s);
    std::string t;
    while (std::getline(ss, t, ','))
        if (!t.empty()) r.push_back(t);
    return r;
}

struct Inst {
    Module& M;
    LLVMContext& C;
    const DataLayout& DL;
    Type *I1, *I8, *I32, *I64, *Dbl, *Void;
    PointerType* P;
    Constant* Null;
    GlobalVariable *gArg, *gArgTag, *gRet, *gRetTag, *gPage;
    std::vector<std::string> externInstr;
    std::vector<std::string> skip;
    MDNode* unlikely;
    std::map<std::string, FunctionCallee> rts;

    // per function
    Function* F = nullptr;
    DenseMap<Value*, SV> S;
    SmallVector<std::pair<PHINode*, SmallVector<PHINode*, 2>>, 16> phis;

    explicit Inst(Module& m) : M(m), C(m.getContext()), DL(m.getDataLayout()) {
        I1 = Type::getInt1Ty(C);
        I8 = Type::getInt8Ty(C);
        I32 = Type::getInt32Ty(C);
        I64 = Type::getInt64Ty(C);
        Dbl = Type::getDoubleTy(C);
        Void = Type::getVoidTy(C);
        P = PointerType::getUnqual(C);
        Null = ConstantPointerNull::get(P);
        auto g = [&](const char* n, Type* t) {
            auto* x = cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
            x->setLinkage(GlobalValue::ExternalLinkage);
            return x;
        };
        gArg = g("vt_aslot", ArrayType::get(P, 64));
        gArgTag = g("vt_arg_tag", P);
        gRet = g("vt_ret", ArrayType::get(P, 16));
        gRetTag = g("vt_ret_tag", P);
        gPage = g("vt_page", ArrayType::get(I8, 1 << 20));
        externInstr = split(getenv("VT_EXTERN_INSTR"));
        skip = split(getenv("VT_SKIP"));
        unlikely = MDBuilder(C).createBranchWeights(1, 100000);
    }

    FunctionCallee rt(StringRef name, Type* ret, ArrayRef<Type*> args, bool va = false) {
        auto it = rts.find(name.str());
        if (it != rts.end()) return it->second;
        FunctionCallee fc = M.getOrInsertFunction(name, FunctionType::get(ret, args, va));
        rts[name.str()] = fc;
        return fc;
    }

    static bool isNullC(Value* v) { return isa<ConstantPointerNull>(v); }

    void leaves(Type* t, SmallVectorImpl<Type*>& out) {
        if (auto* st = dyn_cast<StructType>(t)) {
            for (Type* e : st->elements()) leaves(e, out);
        } else if (auto* at = dyn_cast<ArrayType>(t)) {
            if (at->getNumElements() > 64) return;
            for (uint64_t i = 0; i < at->getNumElements(); ++i) leaves(at->getElementType(), out);
        } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
            for (unsigned i = 0; i < vt->getNumElements(); ++i) out.push_back(vt->getElementType());
        } else if (!t->isVoidTy() && !t->isTokenTy() && !t->isMetadataTy() && !t->isLabelTy()) {
            out.push_back(t);
        }
    }
    unsigned nleaves(Type* t) {
        SmallVector<Type*, 4> l;
        leaves(t, l);
        return l.size();
    }
    static bool isScalar(Type* t) { return t->isIntegerTy() || t->isPointerTy() || t->isFloatingPointTy(); }

    SV get(Value* v) {
        if (!isa<Constant>(v)) {
            auto it = S.find(v);
            if (it != S.end()) return it->second;
        }
        SV r;
        unsigned n = nleaves(v->getType());
        for (unsigned i = 0; i < n; ++i) r.push_back(Null);
        return r;
    }
    Value* get1(Value* v) {
        SV s = get(v);
        return s.size() == 1 ? s[0] : Null;
    }
    void set1(Value* v, Value* s) { S[v] = SV{s}; }
    bool allNull(const SV& s) {
        for (Value* v : s)
            if (!isNullC(v)) return false;
        return true;
    }

    // i1 value: any of the shadows non-null
    Value* anyNonNull(IRBuilder<>& B, ArrayRef<Value*> sh) {
        Value* r = nullptr;
        SmallPtrSet<Value*, 4> seen;
        for (Value* s : sh) {
            if (isNullC(s) || !seen.insert(s).second) continue;
            Value* i = B.CreatePtrToInt(s, I64);
            r = r ? B.CreateOr(r, i) : i;
        }
        if (!r) return nullptr;
        return B.CreateICmpNE(r, ConstantInt::get(I64, 0));
    }

    // value widened to i64 for the runtime
    Value* as64(IRBuilder<>& B, Value* v, bool sign = false) {
        Type* t = v->getType();
        if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
        if (t->isIntegerTy()) {
            unsigned w = t->getIntegerBitWidth();
            if (w == 64) return v;
            if (w > 64) return B.CreateTrunc(v, I64);
            return sign ? B.CreateSExt(v, I64) : B.CreateZExt(v, I64);
        }
        return ConstantInt::get(I64, 0);
    }
    Value* asDbl(IRBuilder<>& B, Value* v) {
        if (v->getType()->isDoubleTy()) return v;
        if (v->getType()->isFloatTy() || v->getType()->isHalfTy()) return B.CreateFPExt(v, Dbl);
        return B.CreateFPTrunc(v, Dbl);
    }
    Value* from64(IRBuilder<>& B, Value* v, Type* t) {
        if (t->isPointerTy()) return B.CreateIntToPtr(v, t);
        if (t->getIntegerBitWidth() > 64) return B.CreateZExt(v, t);
        return B.CreateTrunc(v, t);
    }
    int width(Type* t) {
        if (t->isPointerTy()) return 64;
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        return -1;  // floating point
    }
    Constant* ci(int64_t x) { return ConstantInt::getSigned(I32, x); }
    Constant* ci64(int64_t x) { return ConstantInt::getSigned(I64, x); }

    // guard: if any shadow non-null run `fn` in a slow block and merge with dflt.
    Value* guarded(Instruction* before, ArrayRef<Value*> sh, Value* dflt,
                   function_ref<Value*(IRBuilder<>&)> fn) {
        IRBuilder<> B(before);
        Value* c = anyNonNull(B, sh);
        if (!c) return dflt;
        BasicBlock* head = before->getParent();
        Instruction* then = SplitBlockAndInsertIfThen(c, before, false, unlikely);
        IRBuilder<> TB(then);
        Value* r = fn(TB);
        if (!r) return nullptr;
        IRBuilder<> MB(before);
        // `before` is the first instruction of the tail
        PHINode* phi = PHINode::Create(dflt->getType(), 2);
        phi->insertBefore(before->getParent()->begin());
        phi->addIncoming(dflt, c ? cast<Instruction>(then->getParent()->getSinglePredecessor()->getTerminator())->getParent() : head);
        phi->addIncoming(r, then->getParent());
        return phi;
    }

    // concretised version of scalar v (forks over the feasible values)
    Value* conc(Instruction* before, Value* v) {
        Type* t = v->getType();
        if (!isScalar(t)) {
            // aggregates: concretise leaves of small aggregates is not needed in practice
            SV s = get(v);
            if (!allNull(s))
                guarded(before, s, Null, [&](IRBuilder<>& B) -> Value* {
                    B.CreateCall(rt("vt_unsupported", Void, {I32}), {ci(10)});
                    return nullptr;
                });
            return v;
        }
        Value* s = get1(v);
        if (isNullC(s)) return v;
        if (t->isFloatingPointTy()) {
            return guarded(before, {s}, v, [&](IRBuilder<>& B) -> Value* {
                Value* r = B.CreateCall(rt("vt_conc_real", Dbl, {Dbl, P}), {asDbl(B, v), s});
                if (t->isDoubleTy()) return r;
                if (t->isFloatTy() || t->isHalfTy()) return B.CreateFPTrunc(r, t);
                return B.CreateFPExt(r, t);
            });
        }
        return guarded(before, {s}, v, [&](IRBuilder<>& B) -> Value* {
            Value* r = B.CreateCall(rt("vt_conc", I64, {I64, P, I32}), {as64(B, v), s, ci(width(t))});
            return from64(B, r, t);
        });
    }

    bool instrumentable(Function* f) {
        StringRef n = f->getName();
        if (n == "vt_harness") return true;
        if (n.starts_with("vt_") || n.starts_with("llvm.")) return false;
        for (auto& s : skip)
            if (n.contains(s)) return false;
        return true;
    }
    bool externIsInstr(Function* f) {
        StringRef n = f->getName();
        if (n.starts_with("vt_")) return true;
        for (auto& s : externInstr)
            if (s == "*" || n.starts_with(s)) return true;
        return false;
    }

    Value* slot(IRBuilder<>& B, GlobalVariable* g, unsigned i) {
        return B.CreateConstInBoundsGEP2_64(g->getValueType(), g, 0, i);
    }

    void run(Function& f) {
        F = &f;
        S.clear();
        phis.clear();
        if (F->hasFnAttribute("vt-done")) return;
        SmallVector<Instruction*, 256> insts;
        {
            // reverse post order gives defs before uses except through phis
            ReversePostOrderTraversalBlocks(insts);
        }
        // which allocas need their shadow cleared on entry / exit
        SmallVector<AllocaInst*, 8> allocas;
        for (Instruction* i : insts)
            if (auto* a = dyn_cast<AllocaInst>(i)) allocas.push_back(a);

        bool retSym = false;
        entry();
        // create the shadow phis first
        for (Instruction* i : insts)
            if (auto* p = dyn_cast<PHINode>(i)) {
                unsigned n = nleaves(p->getType());
                if (n == 0 || n > 8) continue;
                SV s;
                SmallVector<PHINode*, 2> sp;
                for (unsigned k = 0; k < n; ++k) {
                    PHINode* q = PHINode::Create(P, p->getNumIncomingValues(), "", p);
                    s.push_back(q);
                    sp.push_back(q);
                }
                S[p] = s;
                phis.push_back({p, sp});
            }
        for (Instruction* i : insts) {
            if (isa<PHINode>(i)) continue;
            visit(i);
        }
        for (auto& pr : phis) {
            PHINode* p = pr.first;
            for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) {
                SV s = get(p->getIncomingValue(k));
                for (unsigned j = 0; j < pr.second.size(); ++j)
                    pr.second[j]->addIncoming(j < s.size() ? s[j] : Null, p->getIncomingBlock(k));
            }
        }
        // returns
        SmallVector<ReturnInst*, 4> rets;
        for (Instruction* i : insts)
            if (auto* r = dyn_cast<ReturnInst>(i)) {
                rets.push_back(r);
                if (r->getReturnValue() && !allNull(get(r->getReturnValue()))) retSym = true;
            }
        for (ReturnInst* r : rets) {
            IRBuilder<> B(r);
            if (CallInst* ci = r->getParent()->getTerminatingMustTailCall()) {
                (void) ci;
                continue;
            }
            for (AllocaInst* a : allocas) clearAlloca(r, a);
            if (retSym) {
                IRBuilder<> B2(r);
                SV s = get(r->getReturnValue());
                Value* any = anyNonNull(B2, s);
                if (!any) {
                    B2.CreateStore(Null, gRetTag);
                } else {
                    for (unsigned k = 0; k < s.size() && k < 16; ++k) B2.CreateStore(s[k], slot(B2, gRet, k));
                    B2.CreateStore(B2.CreateSelect(any, F, Null), gRetTag);
                }
            }
        }
        for (AllocaInst* a : allocas)
            if (a->isStaticAlloca()) {
                // entry clearing
                Instruction* at = a->getNextNode();
                while (isa<AllocaInst>(at)) at = at->getNextNode();
                clearAlloca(at, a);
            }
        F->addFnAttr("vt-done");
        // attributes that no longer hold
        F->removeFnAttr(Attribute::Memory);
        F->removeFnAttr(Attribute::NoRecurse);
        F->removeFnAttr(Attribute::NoSync);
        F->removeFnAttr(Attribute::NoFree);
        F->removeFnAttr(Attribute::WillReturn);
        for (auto& a : F->args()) {
            a.removeAttr(Attribute::ReadNone);
            a.removeAttr(Attribute::ReadOnly);
            a.removeAttr(Attribute::WriteOnly);
            a.removeAttr(Attribute::NoCapture);
        }
    }

    void ReversePostOrderTraversalBlocks(SmallVectorImpl<Instruction*>& out) {
        // simple RPO + unreachable blocks dropped (they never run)
        std::vector<BasicBlock*> order;
        std::set<BasicBlock*> seen;
        std::vector<std::pair<BasicBlock*, unsigned>> st;
        st.push_back({&F->getEntryBlock(), 0});
        seen.insert(&F->getEntryBlock());
        while (!st.empty()) {
            auto& [bb, i] = st.back();
            Instruction* t = bb->getTerminator();
            if (i < t->getNumSuccessors()) {
                BasicBlock* s = t->getSuccessor(i++);
                if (seen.insert(s).second) st.push_back({s, 0});
            } else {
                order.push_back(bb);
                st.pop_back();
            }
        }
        for (auto it = order.rbegin(); it != order.rend(); ++it)
            for (Instruction& i : **it) out.push_back(&i);
    }

    void clearAlloca(Instruction* before, AllocaInst* a) {
        if (!a->isStaticAlloca()) return;
        auto sz = a->getAllocationSize(DL);
        if (!sz || sz->isScalable()) return;
        uint64_t n = sz->getFixedValue();
        if (n == 0) return;
        IRBuilder<> B(before);
        Value* ad = B.CreatePtrToInt(a, I64);
        Value* fl = pageFlag(B, ad);
        if (n > 4096) {
            B.CreateCall(rt("vt_clear", Void, {P, I64}), {a, ci64(n)});
            return;
        }
        if (n > 1) fl = B.CreateOr(fl, pageFlag(B, B.CreateAdd(ad, ci64(n - 1))));
        Value* c = B.CreateICmpNE(fl, ConstantInt::get(I8, 0));
        Instruction* then = SplitBlockAndInsertIfThen(c, before, false, unlikely);
        IRBuilder<>(then).CreateCall(rt("vt_clear", Void, {P, I64}), {a, ci64(n)});
    }

    Value* pageFlag(IRBuilder<>& B, Value* ad64) {
        Value* ix = B.CreateAnd(B.CreateLShr(ad64, 12), ci64((1 << 20) - 1));
        Value* p = B.CreateInBoundsGEP(I8, gPage, ix);
        return B.CreateLoad(I8, p);
    }

    void entry() {
        unsigned k = 0;
        Instruction* at = &*F->getEntryBlock().getFirstNonPHIOrDbgOrAlloca();
        IRBuilder<> B(at);
        Value* is = nullptr;
        for (Argument& a : F->args()) {
            unsigned n = nleaves(a.getType());
            if (n == 0 || k + n > 64) continue;
            if (!is) {
                Value* tag = B.CreateLoad(P, gArgTag);
                is = B.CreateICmpEQ(tag, F);
            }
            SV s;
            for (unsigned i = 0; i < n; ++i) {
                Value* v = B.CreateLoad(P, slot(B, gArg, k + i));
                s.push_back(B.CreateSelect(is, v, Null));
            }
            S[&a] = s;
            k += n;
        }
        if (is) B.CreateStore(Null, gArgTag);
    }

    void visit(Instruction* I) {
        switch (I->getOpcode()) {
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul:
            case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
            case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            case Instruction::And: case Instruction::Or: case Instruction::Xor:
                return ibin(I);
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul:
            case Instruction::FDiv: case Instruction::FRem:
                return fbin(I);
            case Instruction::FNeg: {
                if (!isScalar(I->getType())) return vecFallback(I);
                Value* a = I->getOperand(0);
                set1(I, guarded(I, {get1(a)}, Null, [&](IRBuilder<>& B) -> Value* {
                    return B.CreateCall(rt("vt_fneg", P, {P}), {get1(a)});
                }));
                return;
            }
            case Instruction::ICmp: {
                if (!isScalar(I->getType())) return vecFallback(I);
                auto* c = cast<ICmpInst>(I);
                Value *a = c->getOperand(0), *b = c->getOperand(1);
                Value *sa = get1(a), *sb = get1(b);
                int w = width(a->getType());
                if (w > 64) { concOps(I); return; }
                set1(I, guarded(I, {sa, sb}, Null, [&](IRBuilder<>& B) -> Value* {
                    return B.CreateCall(rt("vt_icmp", P, {I32, I32, I64, I64, P, P}),
                                        {ci(c->getPredicate()), ci(w), as64(B, a), as64(B, b), sa, sb});
                }));
                return;
            }
            case Instruction::FCmp: {
                if (!isScalar(I->getType())) return vecFallback(I);
                auto* c = cast<FCmpInst>(I);
                Value *a = c->getOperand(0), *b = c->getOperand(1);
                Value *sa = get1(a), *sb = get1(b);
                set1(I, guarded(I, {sa, sb}, Null, [&](IRBuilder<>& B) -> Value* {
                    return B.CreateCall(rt("vt_fcmp", P, {I32, Dbl, Dbl, P, P}),
                                        {ci(c->getPredicate()), asDbl(B, a), asDbl(B, b), sa, sb});
                }));
                return;
            }
            case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
            case Instruction::PtrToInt: case Instruction::IntToPtr: {
                if (!isScalar(I->getType())) return vecFallback(I);
                Value* a = I->getOperand(0);
                Value* sa = get1(a);
                int w0 = width(a->getType()), w1 = width(I->getType());
                if (w0 == w1) { set1(I, sa); return; }
                if (w0 > 64 || w1 > 64) { concOps(I); return; }
                int sg = I->getOpcode() == Instruction::SExt;
                set1(I, guarded(I, {sa}, Null, [&](IRBuilder<>& B) -> Value* {
                    return B.CreateCall(rt("vt_cast", P, {I32, I32, I32, P}), {ci(w0), ci(w1), ci(sg), sa});
                }));
                return;
            }
            case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast:
                if (nleaves(I->getType()) == nleaves(I->getOperand(0)->getType())) { S[I] = get(I->getOperand(0)); return; }
                return vecFallback(I);
            case Instruction::FPExt: case Instruction::FPTrunc:
                if (!isScalar(I->getType())) return vecFallback(I);
                set1(I, get1(I->getOperand(0)));
                return;
            case Instruction::SIToFP: case Instruction::UIToFP: {
                if (!isScalar(I->getType())) return vecFallback(I);
                Value* a = I->getOperand(0);
                Value* n = conc(I, a);
                if (n != a) I->setOperand(0, n);
                return;
            }
            case Instruction::FPToSI: case Instruction::FPToUI: {
                if (!isScalar(I->getType())) return vecFallback(I);
                Value* n = conc(I, I->getOperand(0));
                I->setOperand(0, n);
                return;
            }
            case Instruction::Select: return select(I);
            case Instruction::GetElementPtr: return gep(cast<GetElementPtrInst>(I));
            case Instruction::Load: return load(cast<LoadInst>(I));
            case Instruction::Store: return store(cast<StoreInst>(I));
            case Instruction::ExtractValue: {
                auto* e = cast<ExtractValueInst>(I);
                SV s = get(e->getAggregateOperand());
                if (s.empty()) return;
                unsigned off = leafOffset(e->getAggregateOperand()->getType(), e->getIndices());
                unsigned n = nleaves(I->getType());
                SV r;
                for (unsigned k = 0; k < n; ++k) r.push_back(off + k < s.size() ? s[off + k] : Null);
                S[I] = r;
                return;
            }
            case Instruction::InsertValue: {
                auto* e = cast<InsertValueInst>(I);
                SV s = get(e->getAggregateOperand());
                SV v = get(e->getInsertedValueOperand());
                unsigned off = leafOffset(I->getType(), e->getIndices());
                for (unsigned k = 0; k < v.size() && off + k < s.size(); ++k) s[off + k] = v[k];
                S[I] = s;
                return;
            }
            case Instruction::ExtractElement: {
                SV s = get(I->getOperand(0));
                if (allNull(s)) return;
                if (auto* c = dyn_cast<ConstantInt>(I->getOperand(1))) {
                    uint64_t k = c->getZExtValue();
                    set1(I, k < s.size() ? s[k] : Null);
                    return;
                }
                return vecFallback(I);
            }
            case Instruction::InsertElement: {
                SV s = get(I->getOperand(0));
                if (auto* c = dyn_cast<ConstantInt>(I->getOperand(2))) {
                    uint64_t k = c->getZExtValue();
                    if (k < s.size()) s[k] = get1(I->getOperand(1));
                    S[I] = s;
                    return;
                }
                return vecFallback(I);
            }
            case Instruction::ShuffleVector: {
                auto* sv = cast<ShuffleVectorInst>(I);
                SV a = get(I->getOperand(0)), b = get(I->getOperand(1));
                SV r;
                for (int m : sv->getShuffleMask()) {
                    if (m < 0) r.push_back(Null);
                    else if ((size_t) m < a.size()) r.push_back(a[m]);
                    else r.push_back((size_t) m - a.size() < b.size() ? b[m - a.size()] : Null);
                }
                S[I] = r;
                return;
            }
            case Instruction::Br: {
                auto* b = cast<BranchInst>(I);
                if (b->isUnconditional()) return;
                Value* c = b->getCondition();
                Value* s = get1(c);
                if (isNullC(s)) return;
                Value* n = guarded(I, {s}, c, [&](IRBuilder<>& B) -> Value* {
                    Value* r = B.CreateCall(rt("vt_branch", I32, {I32, P}), {B.CreateZExt(c, I32), s});
                    return B.CreateICmpNE(r, ci(0));
                });
                b->setCondition(n);
                return;
            }
            case Instruction::Switch: {
                auto* sw = cast<SwitchInst>(I);
                Value* n = conc(I, sw->getCondition());
                sw->setCondition(n);
                return;
            }
            case Instruction::Call: case Instruction::Invoke: return call(cast<CallBase>(I));
            case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: {
                concOps(I);
                IRBuilder<> B(I->getNextNode());
                Value* ptr = I->getOperand(0);
                Type* t = isa<AtomicRMWInst>(I) ? I->getType() : cast<AtomicCmpXchgInst>(I)->getCompareOperand()->getType();
                B.CreateCall(rt("vt_clear", Void, {P, I64}), {ptr, ci64(DL.getTypeStoreSize(t))});
                return;
            }
            case Instruction::Alloca: {
                auto* a = cast<AllocaInst>(I);
                if (!a->isStaticAlloca()) {
                    Value* n = conc(I, a->getArraySize());
                    a->setOperand(0, n);
                    IRBuilder<> B(a->getNextNode());
                    Value* sz = B.CreateMul(as64(B, n), ci64(DL.getTypeAllocSize(a->getAllocatedType())));
                    B.CreateCall(rt("vt_clear", Void, {P, I64}), {a, sz});
                }
                return;
            }
            default: return;
        }
    }

    unsigned leafOffset(Type* t, ArrayRef<unsigned> idx) {
        unsigned off = 0;
        for (unsigned i : idx) {
            if (auto* st = dyn_cast<StructType>(t)) {
                for (unsigned k = 0; k < i; ++k) off += nleaves(st->getElementType(k));
                t = st->getElementType(i);
            } else {
                auto* at = cast<ArrayType>(t);
                off += i * nleaves(at->getElementType());
                t = at->getElementType();
            }
        }
        return off;
    }

    void concOps(Instruction* I) {
        for (unsigned k = 0; k < I->getNumOperands(); ++k) {
            Value* a = I->getOperand(k);
            if (isa<Constant>(a) || isa<BasicBlock>(a) || isa<MetadataAsValue>(a)) continue;
            Value* n = conc(I, a);
            if (n != a) I->setOperand(k, n);
        }
    }

    // an instruction we do not model on vectors: flag if any operand is symbolic
    void vecFallback(Instruction* I) {
        SV all;
        for (Value* o : I->operands())
            if (!isa<Constant>(o) && !isa<BasicBlock>(o))
                for (Value* s : get(o)) all.push_back(s);
        if (allNull(all)) return;
        guarded(I, all, Null, [&](IRBuilder<>& B) -> Value* {
            B.CreateCall(rt("vt_unsupported", Void, {I32}), {ci(1000 + I->getOpcode())});
            return nullptr;
        });
    }

    void ibin(Instruction* I) {
        if (!isScalar(I->getType())) return vecFallback(I);
        Value *a = I->getOperand(0), *b = I->getOperand(1);
        Value *sa = get1(a), *sb = get1(b);
        int w = width(I->getType());
        if (w > 64) { concOps(I); return; }
        Value* r = guarded(I, {sa, sb}, Null, [&](IRBuilder<>& B) -> Value* {
            return B.CreateCall(rt("vt_ibin", P, {I32, I32, I64, I64, P, P}),
                                {ci(I->getOpcode()), ci(w), as64(B, a), as64(B, b), sa, sb});
        });
        set1(I, r);
        switch (I->getOpcode()) {
            case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
                if (!isNullC(sb) || !isNullC(sa)) {
                    IRBuilder<> B(I);
                    Value* any = anyNonNull(B, {sa, sb});
                    if (any) {
                        I->setOperand(1, B.CreateSelect(any, ConstantInt::get(I->getType(), 1), b));
                    }
                }
                break;
            default: break;
        }
        I->dropPoisonGeneratingFlags();
    }

    void fbin(Instruction* I) {
        if (!isScalar(I->getType())) return vecFallback(I);
        Value *a = I->getOperand(0), *b = I->getOperand(1);
        Value *sa = get1(a), *sb = get1(b);
        set1(I, guarded(I, {sa, sb}, Null, [&](IRBuilder<>& B) -> Value* {
            return B.CreateCall(rt("vt_fbin", P, {I32, Dbl, Dbl, P, P}),
                                {ci(I->getOpcode()), asDbl(B, a), asDbl(B, b), sa, sb});
        }));
    }

    void select(Instruction* I) {
        auto* s = cast<SelectInst>(I);
        Value *c = s->getCondition(), *a = s->getTrueValue(), *b = s->getFalseValue();
        if (c->getType()->isVectorTy()) return vecFallback(I);
        Value* sc = get1(c);
        SV sa = get(a), sb = get(b);
        if (isNullC(sc)) {
            if (allNull(sa) && allNull(sb)) return;
            IRBuilder<> B(I);
            SV r;
            for (unsigned k = 0; k < sa.size(); ++k) r.push_back(B.CreateSelect(c, sa[k], sb[k]));
            S[I] = r;
            return;
        }
        Type* t = I->getType();
        if (!t->isIntegerTy() || t->getIntegerBitWidth() > 64) {
            // fork on the condition
            Value* n = guarded(I, {sc}, c, [&](IRBuilder<>& B) -> Value* {
                Value* r = B.CreateCall(rt("vt_branch", I32, {I32, P}), {B.CreateZExt(c, I32), sc});
                return B.CreateICmpNE(r, ci(0));
            });
            s->setCondition(n);
            IRBuilder<> B(I);
            SV r;
            for (unsigned k = 0; k < sa.size(); ++k) r.push_back(B.CreateSelect(n, sa[k], sb[k]));
            S[I] = r;
            return;
        }
        IRBuilder<> B0(I);
        Value* dflt = B0.CreateSelect(c, sa[0], sb[0]);
        if (allNull(sa) && allNull(sb)) dflt = Null;
        set1(I, guarded(I, {sc}, dflt, [&](IRBuilder<>& B) -> Value* {
            return B.CreateCall(rt("vt_ite", P, {P, I32, I64, I64, P, P}),
                                {sc, ci(width(t)), as64(B, a), as64(B, b), sa[0], sb[0]});
        }));
    }

    void gep(GetElementPtrInst* G) {
        if (G->getType()->isVectorTy()) return vecFallback(G);
        Value* base = G->getPointerOperand();
        MapVector<Value*, APInt> vars;
        APInt off(64, 0);
        SV all;
        all.push_back(get1(base));
        bool ok = G->collectOffset(DL, 64, vars, off);
        if (!ok) return vecFallback(G);
        for (auto& v : vars) all.push_back(get1(v.first));
        if (allNull(all)) return;
        if (vars.empty() && off.isZero()) { set1(G, all[0]); return; }
        set1(G, guarded(G, all, Null, [&](IRBuilder<>& B) -> Value* {
            Value* s = all[0];
            Value* addr = B.CreatePtrToInt(base, I64);
            for (auto& v : vars) {
                Value* sv = get1(v.first);
                s = B.CreateCall(rt("vt_gep", P, {I64, P, I64, P, I32, I64}),
                                 {addr, s, as64(B, v.first, true), sv, ci(width(v.first->getType())), ci64(v.second.getSExtValue())});
                Value* idx = as64(B, v.first, true);
                addr = B.CreateAdd(addr, B.CreateMul(idx, ci64(v.second.getSExtValue())));
            }
            if (!off.isZero())
                s = B.CreateCall(rt("vt_gep", P, {I64, P, I64, P, I32, I64}),
                                 {addr, s, ci64(off.getSExtValue()), Null, ci(64), ci64(1)});
            return s;
        }));
    }

    Value* concPtr(Instruction* I, Value* p) { return conc(I, p); }

    int memKind(Type* t) {  // 0 int, 1 double, 2 float, 3 fp80, 4 pointer
        if (t->isDoubleTy()) return 1;
        if (t->isFloatTy()) return 2;
        if (t->isX86_FP80Ty()) return 3;
        if (t->isPointerTy()) return 4;
        return 0;
    }

    void load(LoadInst* L) {
        Value* p0 = L->getPointerOperand();
        Value* p = concPtr(L, p0);
        if (p != p0) L->setOperand(0, p);
        Type* t = L->getType();
        if (!isScalar(t)) {
            SmallVector<Type*, 4> lt;
            leaves(t, lt);
            if (lt.empty() || lt.size() > 8) return;
            SV r;
            for (unsigned k = 0; k < lt.size(); ++k) r.push_back(loadShadow(L, p, leafByteOffset(t, k), lt[k]));
            S[L] = r;
            return;
        }
        set1(L, loadShadow(L, p, 0, t));
    }
    uint64_t leafByteOffset(Type* t, unsigned leaf) {
        if (auto* st = dyn_cast<StructType>(t)) {
            const StructLayout* sl = DL.getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i) {
                unsigned n = nleaves(st->getElementType(i));
                if (leaf < n) return sl->getElementOffset(i) + leafByteOffset(st->getElementType(i), leaf);
                leaf -= n;
            }
            return 0;
        }
        if (auto* at = dyn_cast<ArrayType>(t)) {
            unsigned n = nleaves(at->getElementType());
            return (leaf / n) * DL.getTypeAllocSize(at->getElementType()) + leafByteOffset(at->getElementType(), leaf % n);
        }
        if (auto* vt = dyn_cast<FixedVectorType>(t)) return leaf * DL.getTypeAllocSize(vt->getElementType());
        return 0;
    }

    Value* loadShadow(Instruction* before, Value* p, uint64_t off, Type* t) {
        // constants in read only globals never have shadows
        if (auto* g = dyn_cast<GlobalVariable>(p->stripInBoundsConstantOffsets()))
            if (g->isConstant()) return Null;
        IRBuilder<> B(before);
        Value* ad = B.CreatePtrToInt(p, I64);
        if (off) ad = B.CreateAdd(ad, ci64(off));
        Value* c = B.CreateICmpNE(pageFlag(B, ad), ConstantInt::get(I8, 0));
        Instruction* then = SplitBlockAndInsertIfThen(c, before, false, unlikely);
        IRBuilder<> TB(then);
        int w = t->isIntegerTy() ? t->getIntegerBitWidth() : 0;
        Value* r = TB.CreateCall(rt("vt_load", P, {I64, I64, I32, I32}),
                                 {ad, ci64(DL.getTypeStoreSize(t)), ci(memKind(t)), ci(w)});
        PHINode* phi = PHINode::Create(P, 2);
        phi->insertBefore(before->getParent()->begin());
        phi->addIncoming(Null, then->getParent()->getSinglePredecessor());
        phi->addIncoming(r, then->getParent());
        return phi;
    }

    void storeShadow(Instruction* before, Value* p, uint64_t off, Type* t, Value* s) {
        IRBuilder<> B(before);
        Value* ad = B.CreatePtrToInt(p, I64);
        if (off) ad = B.CreateAdd(ad, ci64(off));
        Value* c = B.CreateICmpNE(pageFlag(B, ad), ConstantInt::get(I8, 0));
        if (!isNullC(s)) c = B.CreateOr(c, B.CreateICmpNE(s, Null));
        Instruction* then = SplitBlockAndInsertIfThen(c, before, false, unlikely);
        IRBuilder<> TB(then);
        int w = t->isIntegerTy() ? t->getIntegerBitWidth() : 0;
        TB.CreateCall(rt("vt_store", Void, {I64, I64, P, I32}), {ad, ci64(DL.getTypeStoreSize(t)), s, ci(w)});
    }

    void store(StoreInst* I) {
        Value* p0 = I->getPointerOperand();
        Value* p = concPtr(I, p0);
        if (p != p0) I->setOperand(1, p);
        Value* v = I->getValueOperand();
        Type* t = v->getType();
        SV s = get(v);
        if (!isScalar(t)) {
            SmallVector<Type*, 4> lt;
            leaves(t, lt);
            if (lt.size() > 8 || lt.size() != s.size()) return;
            for (unsigned k = 0; k < lt.size(); ++k) storeShadow(I, p, leafByteOffset(t, k), lt[k], s[k]);
            return;
        }
        storeShadow(I, p, 0, t, s[0]);
    }

    Instruction* afterCall(CallBase* I) {
        if (auto* inv = dyn_cast<InvokeInst>(I)) {
            BasicBlock* n = inv->getNormalDest();
            if (!n->getSinglePredecessor() || isa<PHINode>(n->front())) {
                BasicBlock* nb = BasicBlock::Create(C, "", F, n);
                BranchInst::Create(n, nb);
                n->replacePhiUsesWith(inv->getParent(), nb);
                inv->setNormalDest(nb);
                return &*nb->getFirstInsertionPt();
            }
            return &*n->getFirstInsertionPt();
        }
        return I->getNextNode();
    }

    void concArgs(CallBase* I) {
        for (unsigned k = 0; k < I->arg_size(); ++k) {
            Value* a = I->getArgOperand(k);
            if (isa<Constant>(a) || isa<MetadataAsValue>(a) || a->getType()->isMetadataTy() || a->getType()->isTokenTy()) continue;
            Value* n = conc(I, a);
            if (n != a) I->setArgOperand(k, n);
        }
    }

    void mathCall(CallBase* I, StringRef name, unsigned nargs) {
        SV sh;
        for (unsigned k = 0; k < nargs; ++k) sh.push_back(get1(I->getArgOperand(k)));
        if (allNull(sh)) return;
        SmallVector<Value*, 2> args;
        for (unsigned k = 0; k < nargs; ++k) args.push_back(I->getArgOperand(k));
        Value* r = guarded(I, sh, Null, [&](IRBuilder<>& B) -> Value* {
            Value* nm = B.CreateGlobalStringPtr(name);
            Value* z = ConstantFP::get(Dbl, 0.0);
            return B.CreateCall(rt("vt_math", P, {P, I32, Dbl, Dbl, P, P}),
                                {nm, ci(nargs), asDbl(B, args[0]), nargs > 1 ? asDbl(B, args[1]) : z, sh[0],
                                 nargs > 1 ? sh[1] : (Value*) Null});
        });
        set1(I, r);
    }

    void call(CallBase* I) {
        if (I->isInlineAsm()) { concArgs(I); return; }
        Value* callee = I->getCalledOperand();
        Function* cf = dyn_cast<Function>(callee->stripPointerCasts());
        if (cf && cf->isIntrinsic()) return intrinsic(cast<CallInst>(I), cf);
        if (cf && cf->isDeclaration() && cf->getName().starts_with("llvm.")) { return; }
        if (cf && cf->isDeclaration()) {
            StringRef n = cf->getName();
            std::string base = n.str();
            unsigned nfp = 0;
            for (auto& a : I->args())
                if (a->getType()->isFloatingPointTy()) ++nfp;
            if (I->getType()->isFloatingPointTy() && nfp == I->arg_size()) {
                std::string m = base;
                if (m.rfind("__", 0) == 0 && m.size() > 9 && m.substr(m.size() - 7) == "_finite") m = m.substr(2, m.size() - 9);
                if (!MATH1.count(m) && !MATH2.count(m) && m.size() > 1 && (m.back() == 'f' || m.back() == 'l')) m.pop_back();
                if (MATH1.count(m) && nfp == 1) return mathCall(I, m, 1);
                if (MATH2.count(m) && nfp == 2) return mathCall(I, m, 2);
            }
            if (n == "memcpy" || n == "memmove") { memOp(I, 0); return; }
            if (n == "memset") { memOp(I, 1); return; }
            if (n == "memcmp" || n == "bcmp") { memcmpOp(I); return; }
            if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t") {
                concArgs(I);
                Instruction* at = afterCall(I);
                IRBuilder<> B(at);
                B.CreateCall(rt("vt_clear", Void, {P, I64}), {I, as64(B, I->getArgOperand(0))});
                return;
            }
            if (n == "calloc") {
                concArgs(I);
                IRBuilder<> B(afterCall(I));
                B.CreateCall(rt("vt_clear", Void, {P, I64}), {I, B.CreateMul(I->getArgOperand(0), I->getArgOperand(1))});
                return;
            }
            if (n == "realloc") {
                concArgs(I);
                IRBuilder<> B0(I);
                Value* tok = B0.CreateCall(rt("vt_realloc_pre", P, {P, I64}), {I->getArgOperand(0), I->getArgOperand(1)});
                IRBuilder<> B(afterCall(I));
                B.CreateCall(rt("vt_realloc_post", Void, {P, I64, P}), {I, I->getArgOperand(1), tok});
                return;
            }
            if (n == "free" || n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv")) {
                concArgs(I);
                IRBuilder<> B(I);
                B.CreateCall(rt("vt_free_clear", Void, {P}), {I->getArgOperand(0)});
                return;
            }
            if (!externIsInstr(cf) || I->getFunctionType()->isVarArg()) {
                concArgs(I);
                return;
            }
        }
        if (cf && !cf->isDeclaration() && !instrumentable(cf)) { concArgs(I); return; }
        if (!cf) {
            Value* n = conc(I, callee);
            if (n != callee) { I->setCalledOperand(n); callee = n; }
        }
        if (auto* ci = dyn_cast<CallInst>(I))
            if (ci->isMustTailCall()) {
                if (I->getFunctionType()->isVarArg()) { return; }
                ci->setTailCallKind(CallInst::TCK_None);
            }
        if (auto* ci = dyn_cast<CallInst>(I))
            if (ci->isTailCall()) ci->setTailCallKind(CallInst::TCK_None);
        if (I->getFunctionType()->isVarArg()) { concArgs(I); }
        // arguments
        else {
            SV sh;
            for (unsigned k = 0; k < I->arg_size(); ++k) {
                SV s = get(I->getArgOperand(k));
                unsigned n = nleaves(I->getArgOperand(k)->getType());
                if (n == 0 || sh.size() + n > 64) continue;
                for (Value* v : s) sh.push_back(v);
            }
            if (!allNull(sh)) {
                guarded(I, sh, Null, [&](IRBuilder<>& B) -> Value* {
                    for (unsigned k = 0; k < sh.size(); ++k) B.CreateStore(sh[k], slot(B, gArg, k));
                    B.CreateStore(callee, gArgTag);
                    return nullptr;
                });
            }
        }
        // result
        unsigned n = nleaves(I->getType());
        if (n == 0 || n > 16) return;
        IRBuilder<> B(afterCall(I));
        Value* is = B.CreateICmpEQ(B.CreateLoad(P, gRetTag), callee);
        SV r;
        for (unsigned k = 0; k < n; ++k) r.push_back(B.CreateSelect(is, B.CreateLoad(P, slot(B, gRet, k)), Null));
        S[I] = r;
        // strip attributes that allow the call to be moved / removed
        I->removeFnAttr(Attribute::Memory);
        I->removeFnAttr(Attribute::WillReturn);
    }

    void memOp(CallBase* I, int set) {
        concArgs(I);
        IRBuilder<> B(I);
        Value* n = as64(B, I->getArgOperand(2));
        if (set)
            B.CreateCall(rt("vt_clear", Void, {P, I64}), {I->getArgOperand(0), n});
        else
            B.CreateCall(rt("vt_copy", Void, {P, P, I64}), {I->getArgOperand(0), I->getArgOperand(1), n});
    }
    void memcmpOp(CallBase* I) {
        concArgs(I);
        IRBuilder<> B(I);
        Value* n = as64(B, I->getArgOperand(2));
        Value* s = B.CreateCall(rt("vt_memcmp", P, {P, P, I64, I32}),
                                {I->getArgOperand(0), I->getArgOperand(1), n, ci(I->getType()->getIntegerBitWidth())});
        set1(I, s);
    }

    void intrinsic(CallInst* I, Function* cf) {
        switch (cf->getIntrinsicID()) {
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memOp(I, 0); return;
            case Intrinsic::memset: case Intrinsic::memset_inline: {
                memOp(I, 1);
                return;
            }
            case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
            case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
            case Intrinsic::eh_typeid_for: case Intrinsic::trap: case Intrinsic::stacksave: case Intrinsic::stackrestore:
            case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: case Intrinsic::prefetch:
            case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::launder_invariant_group:
            case Intrinsic::strip_invariant_group:
                if (cf->getIntrinsicID() == Intrinsic::launder_invariant_group ||
                    cf->getIntrinsicID() == Intrinsic::strip_invariant_group)
                    set1(I, get1(I->getArgOperand(0)));
                return;
            case Intrinsic::fabs: if (isScalar(I->getType())) return mathCall(I, "fabs", 1); break;
            case Intrinsic::sqrt: if (isScalar(I->getType())) return mathCall(I, "sqrt", 1); break;
            case Intrinsic::sin: if (isScalar(I->getType())) return mathCall(I, "sin", 1); break;
            case Intrinsic::cos: if (isScalar(I->getType())) return mathCall(I, "cos", 1); break;
            case Intrinsic::exp: if (isScalar(I->getType())) return mathCall(I, "exp", 1); break;
            case Intrinsic::log: if (isScalar(I->getType())) return mathCall(I, "log", 1); break;
            case Intrinsic::log10: if (isScalar(I->getType())) return mathCall(I, "log10", 1); break;
            case Intrinsic::log2: if (isScalar(I->getType())) return mathCall(I, "log2", 1); break;
            case Intrinsic::exp2: if (isScalar(I->getType())) return mathCall(I, "exp2", 1); break;
            case Intrinsic::floor: if (isScalar(I->getType())) return mathCall(I, "floor", 1); break;
            case Intrinsic::ceil: if (isScalar(I->getType())) return mathCall(I, "ceil", 1); break;
            case Intrinsic::trunc: if (isScalar(I->getType())) return mathCall(I, "trunc", 1); break;
            case Intrinsic::pow: if (isScalar(I->getType())) return mathCall(I, "pow", 2); break;
            case Intrinsic::copysign: if (isScalar(I->getType())) return mathCall(I, "copysign", 2); break;
            case Intrinsic::minnum: if (isScalar(I->getType())) return mathCall(I, "fmin", 2); break;
            case Intrinsic::maxnum: if (isScalar(I->getType())) return mathCall(I, "fmax", 2); break;
            case Intrinsic::fmuladd: case Intrinsic::fma:
                if (isScalar(I->getType())) {
                    Value *a = I->getArgOperand(0), *b = I->getArgOperand(1), *c = I->getArgOperand(2);
                    SV sh{get1(a), get1(b), get1(c)};
                    set1(I, guarded(I, sh, Null, [&](IRBuilder<>& B) -> Value* {
                        return B.CreateCall(rt("vt_fma", P, {Dbl, Dbl, Dbl, P, P, P}),
                                            {asDbl(B, a), asDbl(B, b), asDbl(B, c), sh[0], sh[1], sh[2]});
                    }));
                    return;
                }
                break;
            case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:
            case Intrinsic::uadd_sat: case Intrinsic::usub_sat:
                if (isScalar(I->getType()) && width(I->getType()) <= 64) {
                    Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
                    Value *sa = get1(a), *sb = get1(b);
                    int k = 0;
                    switch (cf->getIntrinsicID()) {
                        case Intrinsic::umin: k = 100; break;
                        case Intrinsic::umax: k = 101; break;
                        case Intrinsic::smin: k = 102; break;
                        case Intrinsic::smax: k = 103; break;
                        case Intrinsic::uadd_sat: k = 104; break;
                        default: k = 105; break;
                    }
                    set1(I, guarded(I, {sa, sb}, Null, [&](IRBuilder<>& B) -> Value* {
                        return B.CreateCall(rt("vt_ibin", P, {I32, I32, I64, I64, P, P}),
                                            {ci(k), ci(width(I->getType())), as64(B, a), as64(B, b), sa, sb});
                    }));
                    return;
                }
                break;
            case Intrinsic::abs:
                if (isScalar(I->getType()) && width(I->getType()) <= 64) {
                    Value* a = I->getArgOperand(0);
                    Value* sa = get1(a);
                    set1(I, guarded(I, {sa}, Null, [&](IRBuilder<>& B) -> Value* {
                        return B.CreateCall(rt("vt_ibin", P, {I32, I32, I64, I64, P, P}),
                                            {ci(106), ci(width(I->getType())), as64(B, a), as64(B, a), sa, sa});
                    }));
                    return;
                }
                break;
            case Intrinsic::expect: set1(I, get1(I->getArgOperand(0))); return;
            case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
            case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
                int w = width(I->getArgOperand(0)->getType());
                if (w > 64) break;
                Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
                Value *sa = get1(a), *sb = get1(b);
                int k = 0;
                switch (cf->getIntrinsicID()) {
                    case Intrinsic::umul_with_overflow: k = 0; break;
                    case Intrinsic::uadd_with_overflow: k = 1; break;
                    case Intrinsic::usub_with_overflow: k = 2; break;
                    case Intrinsic::smul_with_overflow: k = 3; break;
                    case Intrinsic::sadd_with_overflow: k = 4; break;
                    default: k = 5; break;
                }
                Value* r0 = guarded(I, {sa, sb}, Null, [&](IRBuilder<>& B) -> Value* {
                    return B.CreateCall(rt("vt_ovf", P, {I32, I32, I32, I64, I64, P, P}),
                                        {ci(k), ci(0), ci(w), as64(B, a), as64(B, b), sa, sb});
                });
                Value* r1 = guarded(I, {sa, sb}, Null, [&](IRBuilder<>& B) -> Value* {
                    return B.CreateCall(rt("vt_ovf", P, {I32, I32, I32, I64, I64, P, P}),
                                        {ci(k), ci(1), ci(w), as64(B, a), as64(B, b), sa, sb});
                });
                S[I] = SV{r0, r1};
                return;
            }
            case Intrinsic::is_fpclass: {
                // isnan/isinf style tests: symbolic reals are finite, non-NaN
                Value* a = I->getArgOperand(0);
                Value* sa = get1(a);
                if (isNullC(sa)) return;
                uint64_t mask = cast<ConstantInt>(I->getArgOperand(1))->getZExtValue();
                Value* r = guarded(I, {sa}, Null, [&](IRBuilder<>& B) -> Value* {
                    return B.CreateCall(rt("vt_fpclass", P, {P, I32}), {sa, ci(mask)});
                });
                set1(I, r);
                return;
            }
            default: break;
        }
        // pure intrinsics: concretise the operands
        concArgs(I);
    }
};

struct VtPass : PassInfoMixin<VtPass> {
    PreservedAnalyses run(Module& M, ModuleAnalysisManager& MAM) {
        Inst in(M);
        SmallVector<Function*, 64> fs;
        for (Function& f : M) {
            if (f.isDeclaration()) continue;
            if (f.hasAvailableExternallyLinkage()) continue;
            if (!in.instrumentable(&f)) continue;
            if (f.hasFnAttribute("vt-done")) continue;
            fs.push_back(&f);
        }
        for (Function* f : fs) {
            removeUnreachableBlocks(*f);
            in.run(*f);
        }
        if (getenv("VT_VERIFY")) {
            if (verifyModule(M, &errs())) {
                errs() << "vtpass: broken module\n";
                abort();
            }
        }
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};

}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "vtpass", "v1", [](PassBuilder& PB) {
                PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) {
                    ScalarizerPassOptions o;
                    o.ScalarizeLoadStore = true;
                    o.ScalarizeVariableInsertExtract = true;
                    MPM.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass(o)));
                    MPM.addPass(VtPass());
                });
            }};
}
