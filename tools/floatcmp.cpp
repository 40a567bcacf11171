// floatcmp FILE.bc: decides what the comparison functions vp_<order>_<dir>_<type>
// of the module answer for every pair of floating-point values.
//
// The values are partitioned by sign and class (zero, subnormal, normal,
// infinity, NaN); two reals of the same class are further split by how their
// magnitudes compare.  Every instruction of the function has, on every cell of
// the partition, a single abstract value; the function is evaluated over the
// cells.  Nothing is run, and no cell holds a concrete number.
#include <llvm/ADT/APFloat.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <optional>
#include <set>
#include <string>
using namespace llvm;

namespace {
enum Cls { ZERO, SUB, NORM, INF, NANV };
const char* names[] = {"zero", "subnormal", "normal", "inf", "nan"};

struct Val {
    enum K { Unknown, Int, Fp } k = Unknown;
    APInt lo{1, 0}, hi{1, 0};              // Int: unsigned interval
    int sign = 1;              // Fp
    Cls cls = ZERO;
    int arg = -1;              // whose magnitude
    std::optional<APFloat> c;  // constant
};
Val unknown() { return Val(); }
Val mk(APInt v) { Val r; r.k = Val::Int; r.lo = r.hi = v; return r; }
Val mk(APInt l, APInt h) { Val r; r.k = Val::Int; r.lo = l; r.hi = h; return r; }
Val mkbool(bool b) { return mk(APInt(1, b)); }

Val constant(const APFloat& f)
{
    Val r;
    r.k = Val::Fp;
    r.sign = f.isNegative() ? -1 : 1;
    r.cls = f.isNaN() ? NANV : f.isInfinity() ? INF : f.isZero() ? ZERO : f.isDenormal() ? SUB : NORM;
    r.c = f;
    return r;
}

enum Out { LT = 1, EQ = 2, GT = 4, UN = 8 };
int flipout(int s) { return (s & LT ? GT : 0) | (s & GT ? LT : 0) | (s & (EQ | UN)); }

struct Eval {
    Function& F;
    int rel;   // |arg0| against |arg1| when both are reals of the same class
    std::string why;
    Eval(Function& F, int rel): F(F), rel(rel) {}

    int magnitude(const Val& a, const Val& b)
    {
        if (a.c && b.c) {
            APFloat x = *a.c, y = *b.c;
            x.clearSign(); y.clearSign();
            auto r = x.compare(y);
            return r == APFloat::cmpLessThan ? LT : r == APFloat::cmpGreaterThan ? GT : EQ;
        }
        if (!a.c && !b.c) {
            if (a.arg == b.arg) return EQ;
            return a.arg == 0 ? rel : flipout(rel);
        }
        if (a.c) return flipout(magnitude(b, a));
        // argument against constant of the same class
        APFloat y = *b.c;
        y.clearSign();
        auto& sem = y.getSemantics();
        if (y.compare(APFloat::getLargest(sem)) == APFloat::cmpEqual) return LT | EQ;
        if (y.compare(APFloat::getSmallestNormalized(sem)) == APFloat::cmpEqual) return GT | EQ;
        if (y.compare(APFloat::getSmallest(sem)) == APFloat::cmpEqual) return GT | EQ;
        return LT | EQ | GT;
    }
    int compare(const Val& a, const Val& b)
    {
        if (a.cls == NANV || b.cls == NANV) return UN;
        int ka = a.sign * a.cls, kb = b.sign * b.cls;
        if (ka != kb) return ka < kb ? LT : GT;
        if (a.cls == ZERO || a.cls == INF) return EQ;
        int m = magnitude(a, b);
        return a.sign > 0 ? m : flipout(m);
    }
    Val fcmp(CmpInst::Predicate p, const Val& a, const Val& b)
    {
        int s = compare(a, b), acc = 0;
        // predicate bits: O(rdered)EQ 1, OGT 2, OLT 4, UNO 8
        unsigned bits = unsigned(p);
        if (bits & 1) acc |= EQ;
        if (bits & 2) acc |= GT;
        if (bits & 4) acc |= LT;
        if (bits & 8) acc |= UN;
        if ((s & acc) == s) return mkbool(true);
        if ((s & acc) == 0) return mkbool(false);
        return unknown();
    }
    static Val bits(const Val& v, Type* from, unsigned width)
    {
        if (v.c) {
            return mk(v.c->bitcastToAPInt());
        }
        auto& sem = from->getFltSemantics();
        auto lo = [&](const APFloat& f) { return f.bitcastToAPInt(); };
        APInt l(width, 0), h(width, 0);
        switch (v.cls) {
            case ZERO: break;
            case SUB:
                l = lo(APFloat::getSmallest(sem));
                h = lo(APFloat::getSmallestNormalized(sem)) - 1;
                break;
            case NORM:
                l = lo(APFloat::getSmallestNormalized(sem));
                h = lo(APFloat::getLargest(sem));
                break;
            case INF:
                l = h = lo(APFloat::getInf(sem));
                break;
            case NANV:
                l = lo(APFloat::getInf(sem)) + 1;
                h = APInt::getSignedMaxValue(width);
                break;
        }
        if (v.sign < 0) {
            l.setSignBit();
            h.setSignBit();
        }
        return mk(l, h);
    }
    static Val icmp(CmpInst::Predicate p, const Val& a, const Val& b)
    {
        if (CmpInst::isEquality(p)) {
            bool eq = p == CmpInst::ICMP_EQ;
            if (a.lo == a.hi && b.lo == b.hi) return mkbool((a.lo == b.lo) == eq);
            if (a.hi.ult(b.lo) || b.hi.ult(a.lo)) return mkbool(!eq);
            return unknown();
        }
        APInt al = a.lo, ah = a.hi, bl = b.lo, bh = b.hi;
        if (CmpInst::isSigned(p)) {
            // both ends on the same side of the sign, or no answer
            if (al.isNegative() != ah.isNegative() || bl.isNegative() != bh.isNegative()) return unknown();
            auto f = [](APInt& x) { x.flipBit(x.getBitWidth() - 1); };
            f(al); f(ah); f(bl); f(bh);
            p = ICmpInst::getUnsignedPredicate(p);
        }
        switch (p) {
            case CmpInst::ICMP_ULT: if (ah.ult(bl)) return mkbool(true); if (al.uge(bh)) return mkbool(false); return unknown();
            case CmpInst::ICMP_ULE: if (ah.ule(bl)) return mkbool(true); if (al.ugt(bh)) return mkbool(false); return unknown();
            case CmpInst::ICMP_UGT: if (al.ugt(bh)) return mkbool(true); if (ah.ule(bl)) return mkbool(false); return unknown();
            case CmpInst::ICMP_UGE: if (al.uge(bh)) return mkbool(true); if (ah.ult(bl)) return mkbool(false); return unknown();
            default: return unknown();
        }
    }
    static Val arith(unsigned op, const Val& a, const Val& b)
    {
        unsigned w = a.lo.getBitWidth();
        bool ca = a.lo == a.hi, cb = b.lo == b.hi;
        if (ca && cb) {
            const APInt &x = a.lo, &y = b.lo;
            switch (op) {
                case Instruction::Add: return mk(x + y);
                case Instruction::Sub: return mk(x - y);
                case Instruction::Mul: return mk(x * y);
                case Instruction::And: return mk(x & y);
                case Instruction::Or: return mk(x | y);
                case Instruction::Xor: return mk(x ^ y);
                case Instruction::Shl: return y.uge(w) ? unknown() : mk(x.shl(y));
                case Instruction::LShr: return y.uge(w) ? unknown() : mk(x.lshr(y));
                case Instruction::AShr: return y.uge(w) ? unknown() : mk(x.ashr(y));
                default: return unknown();
            }
        }
        // an interval and a constant
        if (cb && op == Instruction::LShr && b.lo.ult(w)) return mk(a.lo.lshr(b.lo), a.hi.lshr(b.lo));
        if (cb && op == Instruction::AShr && b.lo.ult(w) && a.lo.isNegative() == a.hi.isNegative()) return mk(a.lo.ashr(b.lo), a.hi.ashr(b.lo));
        const Val& i = cb ? a : b;
        const Val& c = cb ? b : a;
        if (ca || cb) {
            if (op == Instruction::Xor && c.lo.isSignMask() && i.lo.isNegative() == i.hi.isNegative()) return mk(i.lo ^ c.lo, i.hi ^ c.lo);
            if (op == Instruction::Xor && c.lo.isAllOnes()) return mk(~i.hi, ~i.lo);
            if (op == Instruction::And && c.lo.isSignMask() && i.lo.isNegative() == i.hi.isNegative()) return mk(i.lo & c.lo);
            if (op == Instruction::And && c.lo.isMaxSignedValue() && i.lo.isNegative() == i.hi.isNegative()) return mk(i.lo & c.lo, i.hi & c.lo);
            if (op == Instruction::And && c.lo.isZero()) return mk(c.lo);
            if (op == Instruction::Add && cb) {
                bool o1, o2;
                APInt l = i.lo.uadd_ov(c.lo, o1), h = i.hi.uadd_ov(c.lo, o2);
                if (o1 == o2) return mk(l, h);
            }
        }
        return unknown();
    }

    std::map<const Value*, Val> env;
    Val get(const Value* V)
    {
        if (auto* C = dyn_cast<ConstantInt>(V)) return mk(C->getValue());
        if (auto* C = dyn_cast<ConstantFP>(V)) return constant(C->getValueAPF());
        auto it = env.find(V);
        return it == env.end() ? unknown() : it->second;
    }
    Val step(const Instruction& I)
    {
        if (auto* C = dyn_cast<FCmpInst>(&I)) {
            Val a = get(C->getOperand(0)), b = get(C->getOperand(1));
            if (C->getPredicate() == CmpInst::FCMP_TRUE) return mkbool(true);
            if (C->getPredicate() == CmpInst::FCMP_FALSE) return mkbool(false);
            if (a.k != Val::Fp || b.k != Val::Fp) return unknown();
            return fcmp(C->getPredicate(), a, b);
        }
        if (auto* C = dyn_cast<ICmpInst>(&I)) {
            Val a = get(C->getOperand(0)), b = get(C->getOperand(1));
            if (a.k != Val::Int || b.k != Val::Int) return unknown();
            return icmp(C->getPredicate(), a, b);
        }
        if (auto* S = dyn_cast<SelectInst>(&I)) {
            Val c = get(S->getCondition());
            if (c.k != Val::Int || c.lo != c.hi) {
                Val a = get(S->getTrueValue()), b = get(S->getFalseValue());
                if (a.k == Val::Int && b.k == Val::Int && a.lo == a.hi && b.lo == b.hi && a.lo == b.lo) return a;
                return unknown();
            }
            return get(c.lo.isZero() ? S->getFalseValue() : S->getTrueValue());
        }
        if (I.getOpcode() == Instruction::FNeg) {
            Val a = get(I.getOperand(0));
            a.sign = -a.sign;
            if (a.c) a.c->changeSign();
            return a;
        }
        if (isa<FPExtInst>(I)) {
            Val a = get(I.getOperand(0));
            if (a.k != Val::Fp || a.c) return unknown();
            if (a.cls == SUB) return unknown();
            return a;
        }
        if (isa<FreezeInst>(I)) return get(I.getOperand(0));
        if (isa<BinaryOperator>(I)) {
            Val a = get(I.getOperand(0)), b = get(I.getOperand(1));
            if (I.getType()->isIntegerTy(1) && (I.getOpcode() == Instruction::And || I.getOpcode() == Instruction::Or)) {
                // absorbing operand
                bool absorb = I.getOpcode() == Instruction::Or;
                for (auto& v: {a, b}) {
                    if (v.k == Val::Int && v.lo == v.hi && v.lo.getBoolValue() == absorb) return v;
                }
            }
            if (a.k != Val::Int || b.k != Val::Int) return unknown();
            return arith(I.getOpcode(), a, b);
        }
        if (auto* C = dyn_cast<CastInst>(&I)) {
            Val a = get(C->getOperand(0));
            unsigned w = C->getType()->isIntegerTy() ? C->getType()->getIntegerBitWidth() : 0;
            if (isa<BitCastInst>(C) && a.k == Val::Fp && w) return bits(a, C->getSrcTy(), w);
            if (a.k != Val::Int || !w) return unknown();
            if (isa<ZExtInst>(C)) return mk(a.lo.zext(w), a.hi.zext(w));
            if (isa<SExtInst>(C) && a.lo.isNegative() == a.hi.isNegative()) return mk(a.lo.sext(w), a.hi.sext(w));
            if (isa<TruncInst>(C) && (a.lo == a.hi || a.hi.ult(APInt::getOneBitSet(a.hi.getBitWidth(), w)))) return mk(a.lo.trunc(w), a.hi.trunc(w));
            return unknown();
        }
        if (auto* C = dyn_cast<IntrinsicInst>(&I)) {
            switch (C->getIntrinsicID()) {
                case Intrinsic::fabs: {
                    Val a = get(C->getArgOperand(0));
                    a.sign = 1;
                    if (a.c) a.c->clearSign();
                    return a;
                }
                case Intrinsic::copysign: {
                    Val a = get(C->getArgOperand(0)), b = get(C->getArgOperand(1));
                    if (a.k != Val::Fp || b.k != Val::Fp) return unknown();
                    if (a.c && a.sign != b.sign) a.c->changeSign();
                    a.sign = b.sign;
                    return a;
                }
                case Intrinsic::is_fpclass: {
                    Val a = get(C->getArgOperand(0));
                    if (a.k != Val::Fp) return unknown();
                    unsigned m = cast<ConstantInt>(C->getArgOperand(1))->getZExtValue();
                    static const unsigned pos[] = {64, 128, 256, 512, 3}, neg[] = {32, 16, 8, 4, 3};
                    unsigned b = (a.sign > 0 ? pos : neg)[a.cls];
                    if ((m & b) == b) return mkbool(true);
                    if ((m & b) == 0) return mkbool(false);
                    return unknown();
                }
                case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::abs: {
                    Val a = get(C->getArgOperand(0));
                    if (a.k != Val::Int || a.lo != a.hi) return unknown();
                    if (C->getIntrinsicID() == Intrinsic::abs) return mk(a.lo.abs());
                    Val b = get(C->getArgOperand(1));
                    if (b.k != Val::Int || b.lo != b.hi) return unknown();
                    switch (C->getIntrinsicID()) {
                        case Intrinsic::smax: return mk(APIntOps::smax(a.lo, b.lo));
                        case Intrinsic::smin: return mk(APIntOps::smin(a.lo, b.lo));
                        case Intrinsic::umax: return mk(APIntOps::umax(a.lo, b.lo));
                        default: return mk(APIntOps::umin(a.lo, b.lo));
                    }
                }
                default: break;
            }
        }
        return unknown();
    }
    // results: bit 0 = may be false, bit 1 = may be true, bit 2 = no answer
    int walk(const BasicBlock* BB, const BasicBlock* from, int depth)
    {
        for (;;) {
            if (++depth > 2000) { why = "does not end"; return 4; }
            std::map<const Value*, Val> phis;
            for (auto& I: *BB) {
                auto* P = dyn_cast<PHINode>(&I);
                if (!P) break;
                phis[P] = get(P->getIncomingValueForBlock(from));
            }
            for (auto& p: phis) env[p.first] = p.second;
            for (auto& I: *BB) {
                if (isa<PHINode>(I) || I.isTerminator()) continue;
                env[&I] = step(I);
            }
            const Instruction* T = BB->getTerminator();
            const BasicBlock* next = nullptr;
            if (auto* R = dyn_cast<ReturnInst>(T)) {
                Val v = get(R->getReturnValue());
                if (v.k != Val::Int || v.lo != v.hi) {
                    why = "the value of an instruction is not determined";
                    return 4;
                }
                return v.lo.isZero() ? 1 : 2;
            }
            if (auto* B = dyn_cast<BranchInst>(T)) {
                if (B->isUnconditional()) {
                    next = B->getSuccessor(0);
                } else {
                    Val c = get(B->getCondition());
                    if (c.k == Val::Int && c.lo == c.hi) {
                        next = B->getSuccessor(c.lo.isZero());
                    } else {
                        auto save = env;
                        int r = walk(B->getSuccessor(0), BB, depth);
                        env = save;
                        return r | walk(B->getSuccessor(1), BB, depth);
                    }
                }
            } else if (auto* S = dyn_cast<SwitchInst>(T)) {
                Val c = get(S->getCondition());
                if (c.k != Val::Int || c.lo != c.hi) { why = "a switch is not determined"; return 4; }
                next = S->getDefaultDest();
                for (auto& k: S->cases()) {
                    if (k.getCaseValue()->getValue() == c.lo) { next = k.getCaseSuccessor(); break; }
                }
            } else {
                why = "unsupported terminator";
                return 4;
            }
            from = BB;
            BB = next;
        }
    }
};

// the documented order, from lesser to greater; reals of a cell are compared by value
int place(const std::string& order, int sign, Cls c)
{
    if (c == ZERO) return order == "total" && sign < 0 ? -1 : 0;
    return sign * (int(c) + 1);
}
}

int main(int argc, char** argv)
{
    int obligations = 0, functions = 0;
    for (int f = 1; f < argc; ++f) {
        LLVMContext ctx;
        SMDiagnostic err;
        auto M = parseIRFile(argv[f], err, ctx);
        if (!M) { errs() << "cannot read " << argv[f] << "\n"; return 2; }
        for (auto& F: *M) {
            if (F.isDeclaration() || !F.getName().starts_with("vp_cmp_")) continue;
            SmallVector<StringRef, 8> part;
            F.getName().split(part, '_');
            std::string order = part[2].str();
            bool greater = part[3] == "greater";
            ++functions;
            for (int a = 0; a < 10; ++a) for (int b = 0; b < 10; ++b) {
                int sa = a % 2 ? 1 : -1, sb = b % 2 ? 1 : -1;
                Cls ca = Cls(a / 2), cb = Cls(b / 2);
                bool split = ca == cb && (ca == SUB || ca == NORM);
                for (int rel: {LT, EQ, GT}) {
                    if (!split && rel != EQ) continue;
                    Eval e(F, rel);
                    for (int i = 0; i < 2; ++i) {
                        Val v;
                        v.k = Val::Fp;
                        v.sign = i ? sb : sa;
                        v.cls = i ? cb : ca;
                        v.arg = i;
                        e.env[F.getArg(i)] = v;
                    }
                    int got = e.walk(&F.getEntryBlock(), nullptr, 0);
                    int lt;  // how the values compare
                    bool un = order == "partial" && (ca == NANV || cb == NANV);
                    int ra = place(order, sa, ca), rb = place(order, sb, cb);
                    if (ra != rb) lt = ra < rb ? LT : GT;
                    else if (split) lt = sa > 0 ? rel : flipout(rel);
                    else lt = EQ;
                    bool want = !un && lt == (greater ? GT : LT);
                    ++obligations;
                    std::string cell = std::string(sa > 0 ? "+" : "-") + names[ca] + " and " + (sb > 0 ? "+" : "-") + names[cb]
                        + (split ? rel == LT ? " of a larger magnitude" : rel == GT ? " of a smaller magnitude" : " of the same magnitude" : "");
                    if (got == (want ? 2 : 1)) continue;
                    if (got == (want ? 1 : 2)) {
                        outs() << "WRONG " << F.getName() << " " << (want ? "false" : "true") << " " << cell << "\n";
                    } else {
                        outs() << "UNDECIDED " << F.getName() << " " << cell << " " << e.why << "\n";
                    }
                }
            }
        }
    }
    outs() << "DONE " << functions << " " << obligations << "\n";
}
