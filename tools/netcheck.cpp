// netcheck FILE.bc [FUNCTION [pairs]]: reads the functions net_<name> of a module, in which two
// elements are compared by vp_less and exchanged by vp_swap, as sequences of
// compare-exchange units and decides whether they sort every input.
// One line per function, tab-separated:
//   function  ok|bad|shape  width  units  detail  pairs...
// `width' is read from the module-level constant integer vp_width_<function>.
//
// By the 0-1 principle a network sorts every input when it sorts every sequence
// of zeros and ones.  The sequences which may reach each point of the network
// are computed exactly, as a product of sets over groups of wires which have not
// been compared with each other yet.
#include "machine.h"
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <cstdint>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

namespace {
struct Unit { int lo, hi; bool strict; const Instruction* at; };

std::string loc(const Instruction* I)
{
    if (!I) return "?:0";
    if (const DILocation* L = I->getDebugLoc()) {
        std::string s;
        for (; L; L = L->getInlinedAt()) {
            StringRef f = L->getFilename();
            if (f.contains("sort") && !f.contains("swap_if")) return (f + ":" + Twine(L->getLine())).str();
        }
    }
    return "?:0";
}

// index of the element an address designates, -1 if it is not constant
int64_t wire(Value* V, const Function& F, const DataLayout& DL, int64_t size)
{
    APInt off(64, 0);
    Value* B = V->stripAndAccumulateConstantOffsets(DL, off, true);
    if (B != F.getArg(0) || off.isNegative() || off.getSExtValue() % size) return -1;
    return off.getSExtValue() / size;
}

// Runs the machine from one comparison to the next: both results must lead to
// the same state but for the exchange of the elements compared.
std::string extract(const Function& F, const DataLayout& DL, int n, std::vector<Unit>& out, bool& shape)
{
    using namespace machine;
    Shared S{DL};
    Machine M(&S, &F, n);
    Event e = M.run();
    while (e == compared) {
        Place a = M.left, b = M.right;
        const CallInst* at = M.at;
        if (a.first != 0 || b.first != 0 || a == b || a.second % 16 || b.second % 16) { shape = true; return "a comparison of other elements than two of the array at " + loc(at); }
        int i = int(a.second / 16), j = int(b.second / 16);
        std::map<Place, int> before = M.tokens;
        Machine T = M;
        T.resume(true);
        M.resume(false);
        Event et = T.run(), ef = M.run();
        if (et == error) { shape = T.shape; return T.why; }
        if (ef == error) { shape = M.shape; return M.why; }
        std::vector<Place> ot, of;
        if (et != ef || T.key(ot) != M.key(of) || (et == compared && (T.left != M.left || T.right != M.right))) {
            shape = false;
            return "the units depend on the result of the comparison at " + loc(at);
        }
        std::map<Place, int> swapped = before;
        std::swap(swapped[a], swapped[b]);
        // exchanged when less(a, b): a must be the one which ends up first
        if (T.tokens == swapped && M.tokens == before) out.push_back({j, i, true, at});
        else if (T.tokens == before && M.tokens == swapped) out.push_back({i, j, false, at});
        else { shape = false; return "the comparison does not decide whether the elements compared are exchanged at " + loc(at); }
        // elements are anonymous from here on
        M.tokens = before;
        e = ef;
    }
    if (e == error) { shape = M.shape; return M.why; }
    return "";
}

bool flatten(const Constant* C, std::vector<int64_t>& out)
{
    if (auto* I = dyn_cast<ConstantInt>(C)) { out.push_back(I->getSExtValue()); return true; }
    if (auto* D = dyn_cast<ConstantDataSequential>(C)) {
        for (unsigned i = 0; i < D->getNumElements(); ++i) if (!flatten(D->getElementAsConstant(i), out)) return false;
        return true;
    }
    if (isa<ConstantStruct>(C) || isa<ConstantArray>(C)) {
        for (unsigned i = 0; i < C->getNumOperands(); ++i) if (!flatten(cast<Constant>(C->getOperand(i)), out)) return false;
        return true;
    }
    if (auto* Z = dyn_cast<ConstantAggregateZero>(C)) {
        for (unsigned i = 0; i < Z->getElementCount().getFixedValue(); ++i) if (!flatten(Z->getElementValue(i), out)) return false;
        return true;
    }
    return false;
}

using Set = std::vector<uint64_t>;
void unique(Set& s)
{
    std::sort(s.begin(), s.end());
    s.erase(std::unique(s.begin(), s.end()), s.end());
}

struct Group { uint64_t wires; Set values; };

// looks for a sequence of zeros and ones which is not sorted, without deciding
std::string refute(const std::vector<Unit>& net, int n)
{
    std::mt19937_64 rng(1);
    for (int round = 0; round < 1 << 16; ++round) {
        // 64 sequences at once, with as many ones on average as the round says
        std::vector<uint64_t> w(n);
        for (auto& x : w) {
            for (int b = 0; b < 64; ++b) x |= uint64_t(rng() % 16 < 1 + uint64_t(round) % 15) << b;
        }
        for (const Unit& u : net) {
            uint64_t l = w[u.lo] & w[u.hi];
            w[u.hi] |= w[u.lo];
            w[u.lo] = l;
        }
        for (int i = 0; i + 1 < n; ++i) {
            if (w[i] & ~w[i + 1]) return "some input is not sorted: elements " + std::to_string(i) + " and " + std::to_string(i + 1) + " come out exchanged";
        }
    }
    return "undecided";
}

std::string decide(const std::vector<Unit>& net, int n, size_t& peak)
{
    std::vector<std::shared_ptr<Group>> of(n);
    for (int i = 0; i < n; ++i) of[i] = std::make_shared<Group>(Group{uint64_t(1) << i, {0, uint64_t(1) << i}});
    // Units on different wires commute: those within one group of wires are
    // applied first, then those which join the two smallest groups.
    std::vector<std::vector<int>> queue(n);
    for (int k = 0; k < int(net.size()); ++k) {
        queue[net[k].lo].push_back(k);
        queue[net[k].hi].push_back(k);
    }
    std::vector<size_t> done(n);
    while (true) {
        int best = -1;
        double cost = 0;
        for (int i = 0; i < n; ++i) {
            if (done[i] == queue[i].size()) continue;
            int k = queue[i][done[i]];
            int o = net[k].lo == i ? net[k].hi : net[k].lo;
            if (queue[o][done[o]] != k) continue;
            double c = of[i] == of[o] ? 0 : double(of[i]->values.size()) * of[o]->values.size();
            if (best < 0 || c < cost) { best = k; cost = c; }
            if (c == 0) break;
        }
        if (best < 0) break;
        const Unit& u = net[best];
        ++done[u.lo];
        ++done[u.hi];
        auto g = of[u.lo];
        if (of[u.hi] != g) {
            auto h = of[u.hi];
            auto m = std::make_shared<Group>();
            m->wires = g->wires | h->wires;
            if (g->values.size() * h->values.size() > (size_t(1) << 28)) return refute(net, n);
            m->values.reserve(g->values.size() * h->values.size());
            for (uint64_t a : g->values) for (uint64_t b : h->values) m->values.push_back(a | b);
            for (int i = 0; i < n; ++i) if (m->wires >> i & 1) of[i] = m;
            g = m;
        }
        uint64_t l = uint64_t(1) << u.lo, h = uint64_t(1) << u.hi, both = l | h;
        size_t changed = 0;
        for (uint64_t& v : g->values) {
            if ((v & both) == l) { v ^= both; ++changed; }
        }
        peak = std::max(peak, g->values.size());
        if (changed) unique(g->values);
    }
    // the groups left are independent: all sequences are sorted only if there is one
    std::shared_ptr<Group> g;
    for (int i = 0; i < n; ++i) {
        if (g && of[i] != g) return "wires never compared with each other";
        g = of[i];
    }
    if (!g) return "";
    for (uint64_t v : g->values) {
        // sorted: zeros first, that is ones in the high wires
        uint64_t full = n == 64 ? ~uint64_t(0) : (uint64_t(1) << n) - 1;
        uint64_t inv = ~v & full;
        if (inv & (inv + 1)) {
            std::string s;
            for (int i = 0; i < n; ++i) s += v >> i & 1 ? '1' : '0';
            return "some input comes out as " + s;
        }
    }
    return "";
}
// Functions val_<name>(T* f): T is arithmetic and compared directly.  They are
// evaluated under every weak order of the elements with values which are sums
// modulo two of the elements, to decide that elements are permuted into order.
struct Val {
    enum Kind { none, bit, sum, number } kind = none;
    uint64_t v = 0;
};

struct Evaluator {
    const Function& F;
    const DataLayout& DL;
    int n, rank[8];
    bool isSigned, isBool, descending;
    int64_t size;
    std::map<const Value*, Val> env;
    std::map<int64_t, Val> memory;
    std::string why;
    bool undefined = false;

    Val get(const Value* V)
    {
        if (auto* C = dyn_cast<ConstantInt>(V)) {
            if (C->getType()->isIntegerTy(1)) return {Val::bit, C->getZExtValue()};
            return {Val::number, C->getZExtValue()};
        }
        auto it = env.find(V);
        return it == env.end() ? Val{} : it->second;
    }
    // three-way comparison of two values, 2 when it is not known
    int order(Val a, Val b)
    {
        if (a.kind == Val::sum && b.kind == Val::sum) {
            if (a.v == b.v) return 0;
            if (!a.v || !b.v || (a.v & (a.v - 1)) || (b.v & (b.v - 1))) return 2;
            int x = rank[__builtin_ctzll(a.v)], y = rank[__builtin_ctzll(b.v)];
            return (x > y) - (x < y);
        }
        if (a.kind == Val::number && b.kind == Val::number) return (a.v > b.v) - (a.v < b.v);
        return 2;
    }
    bool cmp(CmpInst::Predicate p, Val a, Val b, bool& out)
    {
        int o = order(a, b);
        if (a.kind == Val::bit && b.kind == Val::bit) o = (a.v > b.v) - (a.v < b.v);
        if (o == 2) return false;
        if (CmpInst::isIntPredicate(p) && !CmpInst::isFPPredicate(p) && a.kind == Val::sum && o != 0) {
            if (CmpInst::isSigned(p) && !isSigned) return false;
            if (CmpInst::isUnsigned(p) && isSigned) return false;
        }
        switch (p) {
        case CmpInst::ICMP_EQ: case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: out = o == 0; return true;
        case CmpInst::ICMP_NE: case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: out = o != 0; return true;
        case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: out = o < 0; return true;
        case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: out = o > 0; return true;
        case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: out = o <= 0; return true;
        case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: out = o >= 0; return true;
        default: return false;
        }
    }
    Val eval(const Instruction& I)
    {
        if (auto* L = dyn_cast<LoadInst>(&I)) {
            int64_t w = wire(const_cast<Value*>(L->getPointerOperand()), F, DL, size);
            if (w < 0 || !memory.count(w) || int64_t(DL.getTypeAllocSize(L->getType())) != size) return {};
            return memory[w];
        }
        if (isa<TruncInst>(I) && isBool && I.getType()->isIntegerTy(1)) {
            Val a = get(I.getOperand(0));
            return a.kind == Val::number ? Val{Val::bit, a.v & 1} : Val{};
        }
        if (isa<ZExtInst>(I) || isa<SExtInst>(I) || isa<TruncInst>(I) || isa<FPExtInst>(I) || isa<FPTruncInst>(I) || isa<FreezeInst>(I)) {
            Val a = get(I.getOperand(0));
            if (a.kind == Val::bit && isa<ZExtInst>(I)) return {Val::number, a.v};
            if (a.kind == Val::sum) {
                if (isa<ZExtInst>(I) && isSigned) return {};
                if (isa<SExtInst>(I) && !isSigned) return {};
            }
            return a;
        }
        if (auto* S = dyn_cast<SelectInst>(&I)) {
            Val c = get(S->getCondition());
            if (c.kind != Val::bit) return {};
            return get(c.v ? S->getTrueValue() : S->getFalseValue());
        }
        if (auto* C = dyn_cast<CmpInst>(&I)) {
            bool r;
            if (!cmp(C->getPredicate(), get(C->getOperand(0)), get(C->getOperand(1)), r)) return {};
            return {Val::bit, r};
        }
        if (auto* B = dyn_cast<BinaryOperator>(&I)) {
            Val a = get(B->getOperand(0)), b = get(B->getOperand(1));
            bool same = a.kind == b.kind && a.kind != Val::none;
            if (B->getOpcode() == Instruction::Xor && same) return {a.kind, a.v ^ b.v};
            if (same && a.kind != Val::sum) {
                if (B->getOpcode() == Instruction::And) return {a.kind, a.v & b.v};
                if (B->getOpcode() == Instruction::Or) return {a.kind, a.v | b.v};
            }
            return {};
        }
        if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
            auto id = II->getIntrinsicID();
            bool mx = id == Intrinsic::smax || id == Intrinsic::umax, mn = id == Intrinsic::smin || id == Intrinsic::umin;
            if (mx || mn) {
                bool sg = id == Intrinsic::smax || id == Intrinsic::smin;
                Val a = get(II->getOperand(0)), b = get(II->getOperand(1));
                bool less;
                if (!cmp(sg ? CmpInst::ICMP_SLT : CmpInst::ICMP_ULT, a, b, less)) return {};
                return less == mn ? a : b;
            }
        }
        return {};
    }
    bool run()
    {
        const BasicBlock *B = &F.getEntryBlock(), *P = nullptr;
        std::set<const BasicBlock*> seen;
        while (true) {
            if (!seen.insert(B).second) { why = "a loop whose bounds are not constant"; return false; }
            std::map<const Value*, Val> phis;
            for (const PHINode& N : B->phis()) phis[&N] = get(N.getIncomingValueForBlock(P));
            for (auto& p : phis) env[p.first] = p.second;
            for (const Instruction& I : *B) {
                if (isa<PHINode>(I) || isa<GetElementPtrInst>(I) || isa<DbgInfoIntrinsic>(I)) continue;
                if (auto* S = dyn_cast<StoreInst>(&I)) {
                    int64_t w = wire(const_cast<Value*>(S->getPointerOperand()), F, DL, size);
                    if (w < 0 || int64_t(DL.getTypeAllocSize(S->getValueOperand()->getType())) != size) { why = "an index which is not constant at " + loc(&I); return false; }
                    memory[w] = get(S->getValueOperand());
                    continue;
                }
                if (isa<ReturnInst>(I)) return true;
                if (auto* br = dyn_cast<BranchInst>(&I)) {
                    P = B;
                    if (!br->isConditional()) { B = br->getSuccessor(0); break; }
                    Val c = get(br->getCondition());
                    if (c.kind != Val::bit) { why = "unknown condition at " + loc(&I); return false; }
                    B = br->getSuccessor(c.v ? 0 : 1);
                    break;
                }
                if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
                    if (II->isAssumeLikeIntrinsic()) continue;
                }
                if (isa<UnreachableInst>(I)) { why = "undefined behaviour or a recursion without end"; undefined = true; return false; }
                if (I.isTerminator() || I.mayWriteToMemory()) { why = "unexpected operation at " + loc(&I); return false; }
                env[&I] = eval(I);
            }
        }
    }
};

// flags: 1 signed, 2 bool, 4 decreasing order
std::string evaluate(const Function& F, const DataLayout& DL, int n, int64_t size, int flags, int& cases, bool& shape)
{
    int total = 1;
    for (int i = 0; i < n; ++i) total *= flags & 2 ? 2 : n;
    for (int code = 0; code < total; ++code) {
        Evaluator E{F, DL, n, {}, bool(flags & 1), bool(flags & 2), bool(flags & 4), size, {}, {}, {}};
        int c = code;
        std::string input;
        for (int i = 0; i < n; ++i) {
            int base = flags & 2 ? 2 : n;
            E.rank[i] = c % base;
            c /= base;
            E.memory[i] = flags & 2 ? Val{Val::number, uint64_t(E.rank[i])} : Val{Val::sum, uint64_t(1) << i};
            input += std::to_string(E.rank[i]) + " ";
        }
        ++cases;
        if (!E.run()) { shape = !E.undefined; return E.why; }
        uint64_t seen = 0;
        int last = 0, ones = 0, before = 0;
        for (int i = 0; i < n; ++i) {
            Val v = E.memory[i];
            int r;
            if (flags & 2) {
                if (v.kind != Val::number || v.v > 1) { shape = v.kind != Val::number; return "element " + std::to_string(i) + " is not a truth value for the input " + input; }
                r = v.v;
                ones += r;
                before += E.rank[i];
            } else {
                if (v.kind != Val::sum) { shape = true; return "the value of element " + std::to_string(i) + " is not followed"; }
                if (!v.v || (v.v & (v.v - 1)) || (seen & v.v)) return "the elements are not preserved for an input ordered like " + input;
                seen |= v.v;
                r = E.rank[__builtin_ctzll(v.v)];
            }
            if (i && (flags & 4 ? r > last : r < last)) return "not sorted for an input ordered like " + input;
            last = r;
        }
        if ((flags & 2) && ones != before) return "the elements are not preserved for the input " + input;
        if (int(E.memory.size()) != n) return "elements are written out of bounds";
    }
    return "";
}

}

int main(int argc, char** argv)
{
    LLVMContext C;
    SMDiagnostic E;
    auto M = parseIRFile(argv[1], E, C);
    if (!M) { E.print(argv[0], errs()); return 2; }
    const DataLayout& DL = M->getDataLayout();
    for (const GlobalVariable& G : M->globals()) {
        if (!G.getName().starts_with("vp_pairs_") || !G.hasInitializer()) continue;
        if (argc > 2 && StringRef(argv[2]) != "none") continue;
        std::vector<int64_t> v;
        if (!flatten(G.getInitializer(), v)) { outs() << G.getName() << "\tshape\n"; continue; }
        outs() << G.getName() << "\tpairs\t";
        for (size_t i = 0; i + 1 < v.size(); i += 2) outs() << v[i] << '<' << v[i + 1] << ' ';
        outs() << '\n';
    }
    for (const Function& F : *M) {
        if (!F.getName().starts_with("val_") || F.isDeclaration() || argc > 2) continue;
        auto num = [&](const char* what) {
            return cast<ConstantInt>(M->getNamedGlobal(("vp_" + Twine(what) + "_" + F.getName()).str())->getInitializer())->getSExtValue();
        };
        int n = num("width"), cases = 0;
        bool shape = false;
        std::string why = evaluate(F, DL, n, num("size"), num("flags"), cases, shape);
        outs() << F.getName() << '\t' << (why.empty() ? "ok" : shape ? "shape" : "bad") << '\t' << n << '\t' << cases << '\t' << why << '\t' << '\n';
    }
    for (const Function& F : *M) {
        if (!F.getName().starts_with("net_") || F.isDeclaration()) continue;
        if (argc > 2 && F.getName() != argv[2]) continue;
        auto* G = M->getNamedGlobal(("vp_width_" + F.getName()).str());
        int n = cast<ConstantInt>(G->getInitializer())->getSExtValue();
        std::vector<Unit> net;
        bool unknown = false;
        std::string why = extract(F, DL, n, net, unknown);
        outs() << F.getName() << '\t';
        if (!why.empty()) {
            outs() << (unknown ? "shape\t" : "bad\t") << n << '\t' << net.size() << '\t' << why << '\t' << '\n';
            continue;
        }
        size_t peak = 0;
        for (const Unit& u : net) {
            if (u.lo >= n || u.hi >= n) why = "element " + std::to_string(std::max(u.lo, u.hi)) + " is out of bounds at " + loc(u.at);
        }
        if (why.empty() && argc <= 3) why = decide(net, n, peak);
        outs() << (why.empty() ? "ok" : why == "undecided" ? "undecided" : "bad") << '\t' << n << '\t' << net.size() << '\t' << (why.empty() ? "at most " + std::to_string(peak) + " reachable 0-1 sequences" : why) << '\t';
        for (const Unit& u : net) outs() << u.lo << (u.strict ? '<' : '=') << u.hi << ' ';
        outs() << '\n';
    }
}
