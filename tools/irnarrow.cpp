// irnarrow FILE.bc: conversions which may lose part of a size or position.
// One line per conversion, tab-separated:
//   kind  ok|lost  function  file:line < file:line...  detail
// kinds:
//   trunc     64-bit integer converted to fewer bits
//   float     floating-point number converted to an integer
//   overflow  integer computed with fewer than 64 bits, then converted to 64 or more
//   counter   counter of fewer than 64 bits in a loop without a constant bound
#include <llvm/Analysis/LazyValueInfo.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Analysis/ScalarEvolutionExpressions.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/IR/ConstantRange.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/KnownBits.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cmath>
#include <string>
using namespace llvm;

namespace {
std::string file(const DILocation* L)
{
    return L->getFilename().starts_with("/") ? L->getFilename().str() : (L->getDirectory() + "/" + L->getFilename()).str();
}

std::string loc(const Instruction& I)
{
    if (const DILocation* L = I.getDebugLoc()) {
        std::string s = file(L) + ":" + std::to_string(L->getLine());
        while ((L = L->getInlinedAt())) {
            s += " < " + file(L) + ":" + std::to_string(L->getLine());
        }
        return s;
    }
    return "?:0";
}

void report(const char* kind, bool ok, const Instruction& I, const std::string& detail)
{
    outs() << kind << '\t' << (ok ? "ok" : "lost") << '\t' << I.getFunction()->getName() << '\t' << loc(I) << '\t' << detail << '\n';
}

// The variable a loop shifts right until nothing is left of it: such a loop runs
// at most once per bit
bool shifts(const Loop* L)
{
    SmallVector<BasicBlock*, 4> ex;
    L->getExitingBlocks(ex);
    for (BasicBlock* B : ex) {
        auto* br = dyn_cast<BranchInst>(B->getTerminator());
        if (!br || !br->isConditional()) continue;
        auto* c = dyn_cast<ICmpInst>(br->getCondition());
        if (!c || !isa<ConstantInt>(c->getOperand(1)) || !cast<ConstantInt>(c->getOperand(1))->isZero()) continue;
        // tested before or after the shift
        Value* x = c->getOperand(0);
        auto* P = dyn_cast<PHINode>(x);
        auto* S = dyn_cast<BinaryOperator>(x);
        if (P && P->getParent() == L->getHeader()) {
            for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
                if (L->contains(P->getIncomingBlock(i))) S = dyn_cast<BinaryOperator>(P->getIncomingValue(i));
            }
        }
        if (!S || !S->isShift() || S->getOpcode() == Instruction::Shl) continue;
        auto* k = dyn_cast<ConstantInt>(S->getOperand(1));
        auto* from = dyn_cast<PHINode>(S->getOperand(0));
        if (k && !k->isZero() && from && from->getParent() == L->getHeader()) {
            for (unsigned i = 0; i < from->getNumIncomingValues(); ++i) {
                if (from->getIncomingValue(i) == S) return true;
            }
        }
    }
    return false;
}

// An upper bound of an integer which is not negative, 0 if none is known
uint64_t bound(Value* V, LoopInfo& LI, unsigned depth = 0)
{
    if (depth > 6) return 0;
    if (auto* K = dyn_cast<ConstantInt>(V)) return K->getValue().getActiveBits() <= 32 ? K->getZExtValue() + 1 : 0;
    if (auto* P = dyn_cast<PHINode>(V)) {
        const Loop* L = LI.getLoopFor(P->getParent());
        if (L && L->getHeader() == P->getParent() && shifts(L)) {
            uint64_t start = 0, step = 0;
            for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
                if (L->contains(P->getIncomingBlock(i))) {
                    auto* B = dyn_cast<BinaryOperator>(P->getIncomingValue(i));
                    auto* K = B && B->getOpcode() == Instruction::Add && B->getOperand(0) == P ? dyn_cast<ConstantInt>(B->getOperand(1)) : nullptr;
                    if (!K || K->getValue().getActiveBits() > 16) return 0;
                    step = K->getZExtValue();
                } else {
                    start = bound(P->getIncomingValue(i), LI, depth + 1);
                    if (!start) return 0;
                }
            }
            return start + 128 * step;
        }
        uint64_t m = 0;
        for (Value* O : P->incoming_values()) {
            uint64_t b = O == P ? 1 : bound(O, LI, depth + 1);
            if (!b) return 0;
            m = std::max(m, b);
        }
        return m;
    }
    auto* I = dyn_cast<Instruction>(V);
    if (!I) return 0;
    if (auto* S = dyn_cast<SelectInst>(I)) {
        uint64_t a = bound(S->getTrueValue(), LI, depth + 1), b = bound(S->getFalseValue(), LI, depth + 1);
        return a && b ? std::max(a, b) : 0;
    }
    if (isa<CastInst>(I) && I->getOperand(0)->getType()->isIntegerTy()) return bound(I->getOperand(0), LI, depth + 1);
    if (auto* B = dyn_cast<BinaryOperator>(I)) {
        uint64_t a = bound(B->getOperand(0), LI, depth + 1), b = bound(B->getOperand(1), LI, depth + 1);
        switch (B->getOpcode()) {
            case Instruction::Add: return a && b && a + b < (1ull << 40) ? a + b : 0;
            case Instruction::Mul: return a && b && a < (1ull << 20) && b < (1ull << 20) ? a * b : 0;
            case Instruction::Shl: return a && b && a < (1ull << 20) && b < 16 ? a << b : 0;
            case Instruction::Sub: case Instruction::UDiv: case Instruction::LShr: case Instruction::AShr: case Instruction::SDiv: return a;
            case Instruction::URem: return b;
            default: return 0;
        }
    }
    return 0;
}

// Whether a value of 64 bits always survives a conversion to n bits and back,
// as a signed or as an unsigned number
bool fits(Value* V, unsigned n, Instruction* At, LazyValueInfo& LVI, const DataLayout& DL, ScalarEvolution& SE, LoopInfo& LI, unsigned depth = 0)
{
    unsigned w = V->getType()->getIntegerBitWidth();
    KnownBits K = computeKnownBits(V, DL, 0, nullptr, At);
    if (K.countMaxActiveBits() <= n) return true;
    if (ComputeNumSignBits(V, DL, 0, nullptr, At) > w - n) return true;
    ConstantRange R = LVI.getConstantRange(V, At, true);
    if (R.getActiveBits() <= n || R.getMinSignedBits() <= n) return true;
    if (SE.isSCEVable(V->getType())) {
        const SCEV* S = SE.getSCEV(V);
        for (Loop* L = LI.getLoopFor(At->getParent()); L; L = L->getParentLoop()) {
            if (SE.getUnsignedRangeMax(SE.applyLoopGuards(S, L)).getActiveBits() <= n) return true;
        }
        if (SE.getUnsignedRangeMax(S).getActiveBits() <= n) return true;
        if (auto* A = dyn_cast<SCEVAddRecExpr>(S)) {
            const Loop* L = A->getLoop();
            auto* k0 = dyn_cast<SCEVConstant>(A->getStart());
            auto* k1 = A->isAffine() ? dyn_cast<SCEVConstant>(A->getStepRecurrence(SE)) : nullptr;
            const SCEV* count = SE.getSymbolicMaxBackedgeTakenCount(L);
            if (k0 && k1 && !isa<SCEVCouldNotCompute>(count) && k0->getAPInt().getActiveBits() < 32 && k1->getAPInt().getActiveBits() < 16) {
                APInt m = SE.getUnsignedRangeMax(SE.applyLoopGuards(count, L));
                if (m.getActiveBits() < 32 && (k0->getAPInt().getZExtValue() + k1->getAPInt().getZExtValue() * m.getZExtValue()) >> n == 0) return true;
            }
        }
    }
    uint64_t b = bound(V, LI);
    if (b && b <= (1ull << (n - 1))) return true;
    if (depth < 4) {
        if (auto* S = dyn_cast<SelectInst>(V)) {
            return fits(S->getTrueValue(), n, At, LVI, DL, SE, LI, depth + 1) && fits(S->getFalseValue(), n, At, LVI, DL, SE, LI, depth + 1);
        }
        if (auto* P = dyn_cast<PHINode>(V)) {
            for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
                if (P->getIncomingValue(i) != P &&
                    !fits(P->getIncomingValue(i), n, P->getIncomingBlock(i)->getTerminator(), LVI, DL, SE, LI, depth + 1)) return false;
            }
            return true;
        }
    }
    return false;
}
}

// The values a floating-point number computed from an integer may have; nothing
// when it may be infinite or not a number
struct Range { double lo, hi; };
bool finite(Value* V, Instruction* At, LazyValueInfo& LVI, Range& R, unsigned depth = 0)
{
    if (depth > 8) return false;
    if (auto* K = dyn_cast<ConstantFP>(V)) {
        APFloat f = K->getValueAPF();
        bool lost;
        f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost);
        R.lo = R.hi = f.convertToDouble();
        return f.isFinite();
    }
    auto* I = dyn_cast<Instruction>(V);
    if (!I) return false;
    if (isa<UIToFPInst>(I) || isa<SIToFPInst>(I)) {
        ConstantRange C = LVI.getConstantRange(I->getOperand(0), I, false);
        R.lo = isa<UIToFPInst>(I) ? C.getUnsignedMin().roundToDouble(false) : C.getSignedMin().roundToDouble(true);
        if (R.lo < 0) R.lo = 0;                 // lengths are never negative
        R.hi = isa<UIToFPInst>(I) ? C.getUnsignedMax().roundToDouble(false) : C.getSignedMax().roundToDouble(true);
        return true;
    }
    if (isa<FPExtInst>(I) || isa<FPTruncInst>(I)) {
        return finite(I->getOperand(0), At, LVI, R, depth + 1) && std::fabs(R.lo) < 1e30 && std::fabs(R.hi) < 1e30;
    }
    if (isa<PHINode>(I) || isa<SelectInst>(I)) {
        bool first = true;
        for (unsigned k = isa<SelectInst>(I); k < I->getNumOperands(); ++k) {
            Range S;
            if (!finite(I->getOperand(k), At, LVI, S, depth + 1)) return false;
            R = first ? S : Range{std::min(R.lo, S.lo), std::max(R.hi, S.hi)};
            first = false;
        }
        return !first;
    }
    if (auto* B = dyn_cast<BinaryOperator>(I)) {
        Range a, b;
        if (!finite(B->getOperand(0), At, LVI, a, depth + 1) || !finite(B->getOperand(1), At, LVI, b, depth + 1)) return false;
        auto hull = [&](double w, double x, double y, double z) {
            R = {std::min(std::min(w, x), std::min(y, z)), std::max(std::max(w, x), std::max(y, z))};
            return std::isfinite(R.lo) && std::isfinite(R.hi);
        };
        switch (B->getOpcode()) {
        case Instruction::FAdd: return hull(a.lo + b.lo, a.lo + b.lo, a.hi + b.hi, a.hi + b.hi);
        case Instruction::FSub: return hull(a.lo - b.hi, a.lo - b.hi, a.hi - b.lo, a.hi - b.lo);
        case Instruction::FMul: return hull(a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi);
        case Instruction::FDiv: return (b.lo > 0 || b.hi < 0) && hull(a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi);
        default: return false;
        }
    }
    if (auto* C = dyn_cast<CallBase>(I)) {
        Function* F = C->getCalledFunction();
        if (!F || C->arg_size() < 1) return false;
        StringRef n = F->getName();
        if (F->isIntrinsic()) {
            n.consume_front("llvm.");
            n = n.split('.').first;
        } else if (n.ends_with("l") || n.ends_with("f")) {
            if (n != "ceil") n = n.drop_back();
        }
        Range a;
        if (!finite(C->getArgOperand(0), At, LVI, a, depth + 1)) return false;
        if (n == "sqrt" && a.lo >= 0) { R = {std::sqrt(a.lo), std::sqrt(a.hi)}; return true; }
        if (a.lo > 0 && (n == "log" || n == "log2" || n == "log10")) {
            auto g = [&](double x) { return n == "log" ? std::log(x) : n == "log2" ? std::log2(x) : std::log10(x); };
            R = {g(a.lo), g(a.hi)};
            return true;
        }
        if (n == "fabs") { R = {a.lo >= 0 ? a.lo : 0, std::max(std::fabs(a.lo), std::fabs(a.hi))}; return true; }
        if (n == "cbrt") { R = {std::cbrt(a.lo), std::cbrt(a.hi)}; return true; }
        if (n == "floor" || n == "ceil" || n == "round" || n == "trunc" || n == "floo" || n == "rint") { R = {std::floor(a.lo), std::ceil(a.hi)}; return true; }
    }
    return false;
}

// Whether a floating-point number converted to n bits fits
bool converts(CastInst* T, LazyValueInfo& LVI, unsigned n)
{
    Range R;
    if (!finite(T->getOperand(0), T, LVI, R)) return false;
    // rounding may exceed the bounds by little
    double slack = 1 + std::fabs(R.hi) * 1e-6;
    return isa<FPToUIInst>(T) ? R.lo > -1 && R.hi + slack < std::ldexp(1.0, n)
                              : R.lo > -std::ldexp(1.0, n - 1) && R.hi + slack < std::ldexp(1.0, n - 1);
}

// Whether an addition, subtraction, multiplication or shift never exceeds its type
bool exact(BinaryOperator* B, bool isSigned, LazyValueInfo& LVI, ScalarEvolution& SE)
{
    unsigned n = B->getType()->getIntegerBitWidth(), w = 2 * n + 2;
    auto range = [&](Value* V) {
        ConstantRange R = LVI.getConstantRange(V, B, false);
        if (SE.isSCEVable(V->getType())) {
            R = R.intersectWith(isSigned ? SE.getSignedRange(SE.getSCEV(V)) : SE.getUnsignedRange(SE.getSCEV(V)));
        }
        return isSigned ? R.signExtend(w) : R.zeroExtend(w);
    };
    ConstantRange a = range(B->getOperand(0)), b = range(B->getOperand(1)), r = ConstantRange::getFull(w);
    switch (B->getOpcode()) {
    case Instruction::Add: r = a.add(b); break;
    case Instruction::Sub: r = a.sub(b); break;
    case Instruction::Mul: r = a.multiply(b); break;
    case Instruction::Shl: {
        APInt most = LVI.getConstantRange(B->getOperand(1), B, false).getUnsignedMax();
        if (most.uge(n)) return false;
        r = a.multiply(ConstantRange(APInt(w, 0), APInt(w, 1).shl(most.getZExtValue()) + 1));
        break;
    }
    default: return true;
    }
    return (isSigned ? ConstantRange::getFull(n).signExtend(w) : ConstantRange::getFull(n).zeroExtend(w)).contains(r);
}

int main(int argc, char** argv)
{
    LLVMContext C;
    SMDiagnostic E;
    auto M = parseIRFile(argv[1], E, C);
    if (!M) { E.print(argv[0], errs()); return 2; }
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (Error Err = PB.parsePassPipeline(MPM,
            "always-inline,function(sroa,early-cse),cgscc(inline),"
            "function(sroa,early-cse,simplifycfg,loop-simplify,sccp),ipsccp,globaldce")) {
        errs() << toString(std::move(Err)) << '\n';
        return 2;
    }
    MPM.run(*M, MAM);
    const DataLayout& DL = M->getDataLayout();
    for (Function& F : *M) {
        if (F.isDeclaration()) continue;
        ScalarEvolution& SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
        LoopInfo& LI = FAM.getResult<LoopAnalysis>(F);
        LazyValueInfo& LVI = FAM.getResult<LazyValueAnalysis>(F);
        for (Instruction& I : instructions(F)) {
            auto* T = dyn_cast<CastInst>(&I);
            if (!T || !T->getDestTy()->isIntegerTy()) continue;
            unsigned n = T->getDestTy()->getIntegerBitWidth();
            if ((isa<SExtInst>(T) || isa<ZExtInst>(T)) && n >= 64 && T->getSrcTy()->getIntegerBitWidth() >= 8 && T->getSrcTy()->getIntegerBitWidth() < 64) {
                SmallVector<Value*, 8> work{T->getOperand(0)};
                SmallPtrSet<Value*, 16> seen;
                while (!work.empty()) {
                    Value* V = work.pop_back_val();
                    if (!seen.insert(V).second) continue;
                    if (isa<PHINode>(V) || isa<SelectInst>(V)) for (Value* O : cast<Instruction>(V)->operands()) work.push_back(O);
                    auto* B = dyn_cast<BinaryOperator>(V);
                    if (!B) continue;
                    switch (B->getOpcode()) {
                    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::Shl:
                        report("overflow", exact(B, isa<SExtInst>(T) || T->hasNonNeg(), LVI, SE), *B, "in " + std::to_string(B->getType()->getIntegerBitWidth()) + " bits");
                    default: break;
                    }
                }
            }
            if (isa<FPToSIInst>(T) || isa<FPToUIInst>(T)) {
                report("float", converts(T, LVI, n), I, "to " + std::to_string(n) + " bits");
                continue;
            }
            if (n >= 64 || n == 1) continue;
            if (isa<TruncInst>(T) && T->getSrcTy()->getIntegerBitWidth() >= 64) {
                report("trunc", fits(T->getOperand(0), n, T, LVI, DL, SE, LI), I, "to " + std::to_string(n) + " bits");
            } else if (isa<PtrToIntInst>(T)) {
                report("trunc", false, I, "pointer to " + std::to_string(n) + " bits");
            }
        }
        for (Loop* L : LI.getLoopsInPreorder()) {
            for (PHINode& P : L->getHeader()->phis()) {
                if (!P.getType()->isIntegerTy() || P.getType()->getIntegerBitWidth() < 8) continue;
                // what an iteration adds to it, possibly on some paths only
                bool counts = false, reset = false;
                SmallVector<Value*, 8> work;
                SmallPtrSet<Value*, 16> seen;
                for (unsigned i = 0; i < P.getNumIncomingValues(); ++i) {
                    if (L->contains(P.getIncomingBlock(i))) work.push_back(P.getIncomingValue(i));
                }
                while (!work.empty()) {
                    Value* V = work.pop_back_val();
                    if (!seen.insert(V).second) continue;
                    if (isa<Constant>(V)) reset = true;
                    auto* I = dyn_cast<Instruction>(V);
                    if (!I || !L->contains(I)) continue;
                    if (auto* B = dyn_cast<BinaryOperator>(I)) {
                        if (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub ||
                            B->getOpcode() == Instruction::Shl || B->getOpcode() == Instruction::Mul) {
                            auto* K = dyn_cast<ConstantInt>(B->getOperand(1));
                            bool down = K && ((B->getOpcode() == Instruction::Add && K->isNegative()) ||
                                              (B->getOpcode() == Instruction::Sub && !K->isNegative()));
                            bool onself = B->getOperand(0) == &P || B->getOperand(1) == &P || isa<PHINode>(B->getOperand(0)) || isa<PHINode>(B->getOperand(1));
                            if (!down && onself) counts = true;
                        }
                    } else if (isa<PHINode>(I) || isa<SelectInst>(I) || isa<CastInst>(I)) {
                        for (Value* O : I->operands()) work.push_back(O);
                    }
                }
                if (!counts || reset) continue;
                bool bounded = P.getType()->getIntegerBitWidth() >= 64 || SE.getSmallConstantMaxTripCount(L) != 0 || shifts(L);
                report("counter", bounded, L->getHeader()->front().getDebugLoc() ? L->getHeader()->front() : *L->getHeader()->getTerminator(),
                       std::to_string(P.getType()->getIntegerBitWidth()) + " bits " + P.getName().str());
            }
        }
    }
}
