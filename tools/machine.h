// An abstract machine for functions which sort an array of elements whose
// number is a constant.  Integers and addresses are constants (constant
// propagation along each path); elements are opaque and only touched by
//   vp_less(p, q)   compares,        vp_swap(p, q)   exchanges,
//   vp_move(p, q)   constructs p from q, vp_assign(p, q) move-assigns q to p,
//   vp_destroy(p)   destroys.
// The machine stops at every comparison, whose result is not determined by it.
#pragma once
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>

namespace machine {
using namespace llvm;

inline std::string where(const Instruction* I)
{
    if (!I) return "?:0";
    if (const DILocation* L = I->getDebugLoc()) {
        std::string first;
        for (; L; L = L->getInlinedAt()) {
            StringRef f = L->getFilename();
            std::string s = (f + ":" + Twine(L->getLine())).str();
            if (first.empty() && f.contains("cpp-sort")) first = s;
            if (f.contains("cpp-sort") && !f.contains("swap_if") && !f.contains("iter_move")) return s;
        }
        if (!first.empty()) return first;
    }
    return "?:0";
}

struct V {
    enum Kind : uint8_t { unknown, num, ptr } k = unknown;
    int base = 0;
    int64_t v = 0;
    bool operator==(const V& o) const { return std::tie(k, base, v) == std::tie(o.k, o.base, o.v); }
    bool operator<(const V& o) const { return std::tie(k, base, v) < std::tie(o.k, o.base, o.v); }
};

using Place = std::pair<int, int64_t>;      // object and offset
constexpr int64_t element = 16;             // size of an element

// values of a function which are still needed at the beginning of each block
struct Live {
    std::map<const BasicBlock*, std::set<const Value*>> in;
    explicit Live(const Function& F)
    {
        bool change = true;
        while (change) {
            change = false;
            for (const BasicBlock& B : F) {
                std::set<const Value*> s;
                for (const BasicBlock* S : successors(&B)) {
                    for (const Value* v : in[S]) {
                        if (!isa<PHINode>(v) || cast<PHINode>(v)->getParent() != S) s.insert(v);
                    }
                    for (const PHINode& P : S->phis()) add(s, P.getIncomingValueForBlock(&B));
                }
                for (auto it = B.rbegin(); it != B.rend(); ++it) {
                    s.erase(&*it);
                    if (isa<PHINode>(*it)) continue;
                    for (const Value* o : it->operands()) add(s, o);
                }
                for (const PHINode& P : B.phis()) s.insert(&P);
                if (s != in[&B]) { in[&B] = std::move(s); change = true; }
            }
        }
    }
    static void add(std::set<const Value*>& s, const Value* v)
    {
        if (isa<Instruction>(v) || isa<Argument>(v)) s.insert(v);
    }
};

struct Frame {
    const Function* F;
    const BasicBlock* B;
    const BasicBlock* P = nullptr;
    BasicBlock::const_iterator I;
    const Instruction* call = nullptr;      // in the caller
    std::map<const Value*, V> env;
    std::map<const Value*, std::vector<V>> parts;   // of aggregates
};

enum Event { compared, done, error };

struct Shared {
    const DataLayout& DL;
    std::map<const Function*, std::unique_ptr<Live>> live;
    std::map<const Value*, int> globals;
    int next = 1000000;
    Live& liveness(const Function* F)
    {
        auto& p = live[F];
        if (!p) p = std::make_unique<Live>(*F);
        return *p;
    }
};

struct Machine {
    Shared* S;
    std::vector<Frame> stack;
    std::map<Place, std::pair<int64_t, V>> memory;      // size and value
    std::map<Place, int> tokens;                        // where elements are
    int objects = 1;                                    // 0 is the array
    int64_t n = 0;
    // of the last event
    std::string why;
    bool shape = false;     // the machine does not know, rather than the program is wrong
    const CallInst* at = nullptr;
    Place left, right;
    // effects
    int64_t moves = 0, swaps = 0, steps = 0;

    Machine(Shared* s, const Function* F, int64_t count) : S(s), n(count)
    {
        Frame f;
        f.F = F;
        f.B = &F->getEntryBlock();
        f.I = f.B->begin();
        f.env[F->getArg(0)] = {V::ptr, 0, 0};
        stack.push_back(f);
        for (int64_t i = 0; i < n; ++i) tokens[{0, i * element}] = int(i);
    }

    V get(const Value* v)
    {
        if (auto* C = dyn_cast<ConstantInt>(v)) {
            if (C->getBitWidth() > 64) return {};
            return {V::num, 0, C->getSExtValue()};
        }
        if (isa<ConstantPointerNull>(v)) return {V::num, 0, 0};
        if (auto* G = dyn_cast<GlobalVariable>(v)) {
            int& id = S->globals[G];
            if (!id) id = S->next++;
            return {V::ptr, id, 0};
        }
        if (auto* E = dyn_cast<ConstantExpr>(v)) {
            if (auto* GEP = dyn_cast<GEPOperator>(E)) return gep(*GEP);
            if (E->getOpcode() == Instruction::IntToPtr || E->getOpcode() == Instruction::BitCast || E->getOpcode() == Instruction::PtrToInt) return get(E->getOperand(0));
            return {};
        }
        auto it = stack.back().env.find(v);
        return it == stack.back().env.end() ? V{} : it->second;
    }
    V gep(const GEPOperator& G)
    {
        V b = get(G.getPointerOperand());
        if (b.k != V::ptr) return {};
        for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
            V i = get(it.getOperand());
            if (i.k != V::num) return {};
            if (StructType* T = it.getStructTypeOrNull()) b.v += S->DL.getStructLayout(T)->getElementOffset(i.v);
            else b.v += i.v * int64_t(S->DL.getTypeAllocSize(it.getIndexedType()).getFixedValue());
        }
        return b;
    }
    static int64_t trunc(int64_t v, unsigned w)
    {
        if (w >= 64) return v;
        uint64_t m = uint64_t(v) << (64 - w);
        return int64_t(m) >> (64 - w);
    }
    static uint64_t zext(int64_t v, unsigned w) { return w >= 64 ? uint64_t(v) : uint64_t(v) & ((uint64_t(1) << w) - 1); }

    V binary(const BinaryOperator& I)
    {
        V a = get(I.getOperand(0)), b = get(I.getOperand(1));
        if (!I.getType()->isIntegerTy()) return {};
        unsigned w = I.getType()->getIntegerBitWidth();
        if (w > 64) return {};
        auto op = I.getOpcode();
        if (a.k == V::ptr || b.k == V::ptr) {
            if (op == Instruction::Sub && a.k == V::ptr && b.k == V::ptr && a.base == b.base) return {V::num, 0, a.v - b.v};
            if (op == Instruction::Add && a.k == V::ptr && b.k == V::num) return {V::ptr, a.base, a.v + b.v};
            if (op == Instruction::Add && b.k == V::ptr && a.k == V::num) return {V::ptr, b.base, a.v + b.v};
            if (op == Instruction::Sub && a.k == V::ptr && b.k == V::num) return {V::ptr, a.base, a.v - b.v};
            return {};
        }
        if (a.k != V::num || b.k != V::num) return {};
        uint64_t x = zext(a.v, w), y = zext(b.v, w), r;
        switch (op) {
        case Instruction::Add: r = x + y; break;
        case Instruction::Sub: r = x - y; break;
        case Instruction::Mul: r = x * y; break;
        case Instruction::And: r = x & y; break;
        case Instruction::Or: r = x | y; break;
        case Instruction::Xor: r = x ^ y; break;
        case Instruction::Shl: if (y >= w) return {}; r = x << y; break;
        case Instruction::LShr: if (y >= w) return {}; r = x >> y; break;
        case Instruction::AShr: if (y >= w) return {}; r = uint64_t(a.v >> y); break;
        case Instruction::UDiv: if (!y) return {}; r = x / y; break;
        case Instruction::URem: if (!y) return {}; r = x % y; break;
        case Instruction::SDiv: if (!b.v || b.v == -1) { if (!b.v) return {}; r = 0 - x; } else r = uint64_t(a.v / b.v); break;
        case Instruction::SRem: if (!b.v) return {}; r = b.v == -1 ? 0 : uint64_t(a.v % b.v); break;
        default: return {};
        }
        return {V::num, 0, trunc(int64_t(r), w)};
    }
    V compare(const ICmpInst& I)
    {
        V a = get(I.getOperand(0)), b = get(I.getOperand(1));
        auto p = I.getPredicate();
        if (a.k == V::unknown || b.k == V::unknown) return {};
        int64_t x = a.v, y = b.v;
        if (a.k == V::ptr || b.k == V::ptr) {
            if (a.k != b.k || a.base != b.base) {
                // different objects, or an object and the null pointer
                if (p == ICmpInst::ICMP_EQ) return {V::num, 0, 0};
                if (p == ICmpInst::ICMP_NE) return {V::num, 0, -1};
                return {};
            }
            return {V::num, 0, ICmpInst::compare(APInt(64, x + (int64_t(1) << 40)), APInt(64, y + (int64_t(1) << 40)), p) ? -1 : 0};
        }
        unsigned w = I.getOperand(0)->getType()->isIntegerTy() ? I.getOperand(0)->getType()->getIntegerBitWidth() : 64;
        if (w > 64) return {};
        return {V::num, 0, ICmpInst::compare(APInt(w, uint64_t(x)), APInt(w, uint64_t(y)), p) ? -1 : 0};
    }
    Event stop(const std::string& s, const Instruction* I, bool sh)
    {
        why = s + " at " + where(I);
        shape = sh;
        return error;
    }
    bool known(const V& p, Place& out)
    {
        if (p.k != V::ptr) return false;
        out = {p.base, p.v};
        return true;
    }
    // constants in memory which is not written
    V initial(const GlobalVariable* G, int64_t off, Type* T)
    {
        if (!G->hasInitializer()) return {};
        if (auto* C = ConstantFoldLoadFromConst(const_cast<Constant*>(G->getInitializer()), T, APInt(64, uint64_t(off)), S->DL)) return get(C);
        return {};
    }
    static Constant* ConstantFoldLoadFromConst(Constant* C, Type* Ty, const APInt& Offset, const DataLayout& DL);

    bool copy(Place to, Place from, int64_t len)
    {
        std::vector<std::pair<int64_t, std::pair<int64_t, V>>> cells;
        for (auto it = memory.lower_bound({from.first, from.second}); it != memory.end() && it->first.first == from.first && it->first.second < from.second + len; ++it) {
            cells.push_back({it->first.second - from.second, it->second});
        }
        forget(to, len);
        for (auto& c : cells) memory[{to.first, to.second + c.first}] = c.second;
        return true;
    }
    void forget(Place to, int64_t len)
    {
        auto it = memory.lower_bound({to.first, to.second - 8});
        while (it != memory.end() && it->first.first == to.first && it->first.second < to.second + len) {
            if (it->first.second + it->second.first > to.second) it = memory.erase(it);
            else ++it;
        }
    }

    std::vector<V> aggregate(const Value* v)
    {
        if (auto* C = dyn_cast<Constant>(v)) {
            std::vector<V> p;
            if (isa<UndefValue>(C) || !C->getType()->isAggregateType()) return p;
            for (unsigned i = 0; auto* E = C->getAggregateElement(i); ++i) p.push_back(get(E));
            return p;
        }
        auto it = stack.back().parts.find(v);
        return it == stack.back().parts.end() ? std::vector<V>() : it->second;
    }
    void set(const Instruction* I, V v) { stack.back().env[I] = v; }
    void resume(bool result)
    {
        set(at, {V::num, 0, result ? -1 : 0});
        ++stack.back().I;
    }
    void jump(const BasicBlock* to)
    {
        Frame& f = stack.back();
        f.P = f.B;
        f.B = to;
        std::vector<std::pair<const Value*, V>> phis;
        for (const PHINode& N : to->phis()) phis.push_back({&N, get(N.getIncomingValueForBlock(f.P))});
        std::vector<std::pair<const Value*, std::vector<V>>> parts;
        for (const PHINode& N : to->phis()) if (N.getType()->isAggregateType()) parts.push_back({&N, aggregate(N.getIncomingValueForBlock(f.P))});
        for (auto& p : phis) f.env[p.first] = p.second;
        for (auto& p : parts) f.parts[p.first] = p.second;
        f.I = to->getFirstNonPHI()->getIterator();
    }
    Event run();
    // the part of the state on which what follows depends; places of elements
    // are listed in `order'
    std::string key(std::vector<Place>& order);
};

inline Constant* Machine::ConstantFoldLoadFromConst(Constant* C, Type* Ty, const APInt& Offset, const DataLayout& DL)
{
    // walks aggregates down to the scalar at the offset
    int64_t off = Offset.getSExtValue();
    while (true) {
        if (off < 0) return nullptr;
        if (C->getType() == Ty && off == 0) return C;
        if (auto* T = dyn_cast<StructType>(C->getType())) {
            if (uint64_t(off) >= DL.getTypeAllocSize(T)) return nullptr;
            unsigned i = DL.getStructLayout(T)->getElementContainingOffset(off);
            off -= DL.getStructLayout(T)->getElementOffset(i);
            C = C->getAggregateElement(i);
        } else if (auto* T = dyn_cast<ArrayType>(C->getType())) {
            int64_t s = DL.getTypeAllocSize(T->getElementType());
            if (uint64_t(off / s) >= T->getNumElements()) return nullptr;
            C = C->getAggregateElement(unsigned(off / s));
            off %= s;
        } else return nullptr;
        if (!C) return nullptr;
    }
}

inline Event Machine::run()
{
    while (true) {
        Frame& f = stack.back();
        const Instruction* I = &*f.I;
        if (++steps > 50000000) return stop("too many operations", I, true);
        if (isa<DbgInfoIntrinsic>(I)) { ++f.I; continue; }
        if (auto* A = dyn_cast<AllocaInst>(I)) {
            set(A, {V::ptr, objects++, 0});
        } else if (auto* L = dyn_cast<LoadInst>(I)) {
            V p = get(L->getPointerOperand());
            V r;
            if (p.k == V::ptr) {
                auto it = memory.find({p.base, p.v});
                int64_t size = S->DL.getTypeStoreSize(L->getType());
                if (it != memory.end()) { if (it->second.first == size) r = it->second.second; }
                else for (auto& g : S->globals) if (g.second == p.base) r = initial(cast<GlobalVariable>(g.first), p.v, L->getType());
            }
            set(L, r);
        } else if (auto* T = dyn_cast<StoreInst>(I)) {
            V p = get(T->getPointerOperand());
            if (p.k != V::ptr) return stop("a write to an unknown place", I, true);
            int64_t size = S->DL.getTypeStoreSize(T->getValueOperand()->getType());
            if (p.base == 0) return stop("an element is written", I, true);
            forget({p.base, p.v}, size);
            memory[{p.base, p.v}] = {size, get(T->getValueOperand())};
        } else if (auto* G = dyn_cast<GetElementPtrInst>(I)) {
            set(G, gep(*cast<GEPOperator>(G)));
        } else if (auto* B = dyn_cast<BinaryOperator>(I)) {
            set(B, binary(*B));
        } else if (auto* C = dyn_cast<ICmpInst>(I)) {
            set(C, compare(*C));
        } else if (auto* X = dyn_cast<SelectInst>(I)) {
            V c = get(X->getCondition());
            if (X->getType()->isAggregateType() && c.k == V::num) f.parts[I] = aggregate(c.v ? X->getTrueValue() : X->getFalseValue());
            set(X, c.k == V::num ? get(c.v ? X->getTrueValue() : X->getFalseValue()) : V{});
        } else if (auto* X = dyn_cast<CastInst>(I)) {
            V a = get(X->getOperand(0));
            if (a.k == V::num && X->getType()->isIntegerTy()) {
                unsigned to = X->getType()->getIntegerBitWidth();
                if (to > 64) a = {};
                else if (isa<TruncInst>(X)) a.v = trunc(a.v, to);
                else if (isa<ZExtInst>(X)) a.v = int64_t(zext(a.v, X->getOperand(0)->getType()->getIntegerBitWidth()));
                else if (!isa<SExtInst>(X) && !isa<PtrToIntInst>(X)) a = {};
            } else if (!(isa<PtrToIntInst>(X) || isa<IntToPtrInst>(X) || isa<BitCastInst>(X))) a = {};
            set(X, a);
        } else if (isa<FreezeInst>(I)) {
            set(I, get(I->getOperand(0)));
        } else if (auto* X = dyn_cast<ExtractValueInst>(I)) {
            std::vector<V> p = aggregate(X->getAggregateOperand());
            if (X->getNumIndices() != 1) return stop("an unexpected operation", I, true);
            set(I, X->getIndices()[0] < p.size() ? p[X->getIndices()[0]] : V{});
        } else if (auto* X = dyn_cast<InsertValueInst>(I)) {
            std::vector<V> p = aggregate(X->getAggregateOperand());
            if (X->getNumIndices() != 1) return stop("an unexpected operation", I, true);
            unsigned k = X->getIndices()[0];
            if (k >= p.size()) p.resize(k + 1);
            p[k] = get(X->getInsertedValueOperand());
            f.parts[I] = p;
        } else if (auto* R = dyn_cast<ReturnInst>(I)) {
            V r = R->getReturnValue() ? get(R->getReturnValue()) : V{};
            if (stack.size() == 1) return done;
            const Instruction* call = f.call;
            std::vector<V> p;
            if (R->getReturnValue()) p = aggregate(R->getReturnValue());
            stack.pop_back();
            if (!p.empty()) stack.back().parts[call] = p;
            if (!call->getType()->isVoidTy()) set(call, r);
        } else if (auto* br = dyn_cast<BranchInst>(I)) {
            if (!br->isConditional()) { jump(br->getSuccessor(0)); continue; }
            V c = get(br->getCondition());
            if (c.k != V::num) return stop("a condition which is not known", I, true);
            jump(br->getSuccessor(c.v & 1 ? 0 : 1));
            continue;
        } else if (auto* sw = dyn_cast<SwitchInst>(I)) {
            V c = get(sw->getCondition());
            if (c.k != V::num) return stop("a condition which is not known", I, true);
            const BasicBlock* to = sw->getDefaultDest();
            for (auto& k : sw->cases()) if (k.getCaseValue()->getSExtValue() == c.v) to = k.getCaseSuccessor();
            jump(to);
            continue;
        } else if (isa<UnreachableInst>(I)) {
            return stop("undefined behaviour", I, false);
        } else if (auto* C = dyn_cast<CallInst>(I)) {
            const Function* F = C->getCalledFunction();
            if (!F) return stop("a call to an unknown function", I, true);
            StringRef name = F->getName();
            if (name.starts_with("vp_")) {
                Place x, y;
                if (!known(get(C->getArgOperand(0)), x)) return stop("an element at an unknown place", I, true);
                if (C->arg_size() > 1 && !known(get(C->getArgOperand(1)), y)) return stop("an element at an unknown place", I, true);
                auto tx = tokens.find(x), ty = tokens.find(y);
                if (name == "vp_less") {
                    if (tx == tokens.end() || ty == tokens.end()) {
                        Place p = tx == tokens.end() ? x : y;
                        if (p.first == 0 && (p.second < 0 || p.second >= n * element)) return stop("an element out of bounds is compared", I, false);
                        return stop("an element which has been moved from is compared", I, false);
                    }
                    at = C;
                    left = x;
                    right = y;
                    return compared;
                }
                if (name == "vp_destroy") {
                    if (tx != tokens.end()) return stop("an element is destroyed", I, false);
                } else if (name == "vp_swap") {
                    if (tx == tokens.end() || ty == tokens.end()) return stop("an element which has been moved from, or is out of bounds, is exchanged", I, false);
                    std::swap(tx->second, ty->second);
                    ++swaps;
                } else {
                    if (x == y) return stop("an element is moved to itself", I, false);
                    if (ty == tokens.end()) return stop("an element which has been moved from, or is out of bounds, is moved", I, false);
                    if (tx != tokens.end()) return stop("an element is overwritten", I, false);
                    if (x.first == 0 && (x.second < 0 || x.second >= n * element || x.second % element)) return stop("an element is moved out of bounds", I, false);
                    int t = ty->second;
                    tokens.erase(ty);
                    tokens[x] = t;
                    ++moves;
                }
            } else if (auto* II = dyn_cast<IntrinsicInst>(C)) {
                auto id = II->getIntrinsicID();
                if (id == Intrinsic::memset || id == Intrinsic::memcpy || id == Intrinsic::memmove) {
                    V to = get(II->getArgOperand(0)), len = get(II->getArgOperand(2));
                    if (to.k != V::ptr || len.k != V::num || to.base == 0) return stop("a block of memory is written", I, true);
                    V from = get(II->getArgOperand(1));
                    if (id == Intrinsic::memset) {
                        forget({to.base, to.v}, len.v);
                        if (from.k == V::num && from.v == 0) for (int64_t i = 0; i + 8 <= len.v; i += 8) memory[{to.base, to.v + i}] = {8, V{V::num, 0, 0}};
                    } else {
                        if (from.k != V::ptr) return stop("a block of memory is read from an unknown place", I, true);
                        for (auto& g : S->globals) if (g.second == from.base) {
                            // words of a constant
                            auto* GV = cast<GlobalVariable>(g.first);
                            Type* W = Type::getInt64Ty(GV->getContext());
                            forget({to.base, to.v}, len.v);
                            for (int64_t i = 0; i + 8 <= len.v; i += 8) memory[{to.base, to.v + i}] = {8, initial(GV, from.v + i, W)};
                            from = {};
                            break;
                        }
                        if (from.k == V::ptr) copy({to.base, to.v}, {from.base, from.v}, len.v);
                    }
                } else if (id == Intrinsic::smax || id == Intrinsic::smin || id == Intrinsic::umax || id == Intrinsic::umin) {
                    V a = get(II->getArgOperand(0)), b = get(II->getArgOperand(1));
                    V r;
                    if (a.k == V::num && b.k == V::num) {
                        bool less = id == Intrinsic::smax || id == Intrinsic::smin ? a.v < b.v : uint64_t(a.v) < uint64_t(b.v);
                        bool mn = id == Intrinsic::smin || id == Intrinsic::umin;
                        r = less == mn ? a : b;
                    }
                    set(II, r);
                } else if (!II->isAssumeLikeIntrinsic() && id != Intrinsic::lifetime_start && id != Intrinsic::lifetime_end) {
                    if (!II->getType()->isVoidTy()) set(II, {});
                    else return stop("an unexpected operation", I, true);
                }
            } else if (!F->isDeclaration()) {
                if (stack.size() > 200) return stop("too many calls", I, true);
                Frame g;
                g.F = F;
                g.B = &F->getEntryBlock();
                g.I = g.B->begin();
                g.call = C;
                for (unsigned i = 0; i < C->arg_size() && i < F->arg_size(); ++i) {
                    V a = get(C->getArgOperand(i));
                    if (F->getArg(i)->hasByValAttr() && a.k == V::ptr) {
                        V b{V::ptr, objects++, 0};
                        copy({b.base, 0}, {a.base, a.v}, S->DL.getTypeAllocSize(F->getArg(i)->getParamByValType()));
                        a = b;
                    }
                    g.env[F->getArg(i)] = a;
                }
                ++f.I;
                stack.push_back(std::move(g));
                continue;
            } else return stop(("a call to " + name).str(), I, true);
        } else {
            return stop("an unexpected operation", I, true);
        }
        // the frame may have been popped
        if (isa<ReturnInst>(I)) continue;
        ++stack.back().I;
    }
}

inline std::string Machine::key(std::vector<Place>& order)
{
    // only what is live, with objects numbered in order of appearance
    std::string s;
    std::map<int, int> names;
    std::vector<int> todo;
    auto name = [&](int b) {
        if (b == 0 || b >= 1000000) return b;
        auto it = names.find(b);
        if (it != names.end()) return it->second;
        int id = int(names.size()) + 1;
        names[b] = id;
        todo.push_back(b);
        return id;
    };
    auto put = [&](int64_t v) { s.append(reinterpret_cast<const char*>(&v), 8); };
    auto value = [&](const V& v) { put(v.k); put(v.k == V::ptr ? name(v.base) : 0); put(v.v); };
    for (size_t k = 0; k < stack.size(); ++k) {
        Frame& f = stack[k];
        put(int64_t(reinterpret_cast<intptr_t>(&*f.I)));
        // live at the current instruction: used later in the block or live out of it
        std::set<const Value*> need;
        for (const BasicBlock* T : successors(f.B)) {
            for (const Value* v : S->liveness(f.F).in[T]) if (!isa<PHINode>(v) || cast<PHINode>(v)->getParent() != T) need.insert(v);
            for (const PHINode& P : T->phis()) Live::add(need, P.getIncomingValueForBlock(f.B));
        }
        for (auto it = f.I; it != f.B->end(); ++it) for (const Value* o : it->operands()) Live::add(need, o);
        // what is defined from here on is not needed yet
        for (auto it = f.I; it != f.B->end(); ++it) need.erase(&*it);
        if (k + 1 < stack.size()) need.erase(stack[k + 1].call);
        std::map<const Value*, V> kept;
        for (auto& p : f.env) if (need.count(p.first)) kept.insert(p);
        for (auto& p : kept) { put(int64_t(reinterpret_cast<intptr_t>(p.first))); value(p.second); }
        f.env = std::move(kept);
        std::map<const Value*, std::vector<V>> agg;
        for (auto& p : f.parts) if (need.count(p.first)) agg.insert(p);
        for (auto& p : agg) { put(int64_t(reinterpret_cast<intptr_t>(p.first))); put(p.second.size()); for (auto& v : p.second) value(v); }
        f.parts = std::move(agg);
        put(-1);
    }
    for (size_t i = 0; i < todo.size(); ++i) {
        for (auto it = memory.lower_bound({todo[i], INT64_MIN}); it != memory.end() && it->first.first == todo[i]; ++it) {
            put(it->first.second);
            put(it->second.first);
            value(it->second.second);
        }
        put(-2);
    }
    // elements of the array, and of objects
    order.clear();
    for (auto& t : tokens) if (t.first.first == 0) order.push_back(t.first);
    for (int b : todo) for (auto it = tokens.lower_bound({b, INT64_MIN}); it != tokens.end() && it->first.first == b; ++it) order.push_back(it->first);
    for (auto& t : tokens) if (t.first.first != 0 && !names.count(t.first.first)) order.push_back(t.first);
    for (auto& p : order) { put(p.first == 0 ? 0 : names.count(p.first) ? names[p.first] : -3); put(p.second); }
    return s;
}
}
