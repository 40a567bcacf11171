// irleak FILE.bc: follows the pointer returned by every allocation through the
// control flow of its function, unwind edges included, and reports the ways out
// of the function on which it has neither been freed nor handed over.  One line
// per allocation site, tab-separated:
//   function  file:line  allocator  ok|leak|limit  [file:line of the exit  how]
//   D  function  file:line  allocator  deallocator     mismatched pair
// A member of an object given by address which receives an allocation owns it:
// what it held before must have been freed, and so must what it holds when the
// object dies, in the function which created the object.
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

namespace {
std::string file(const DILocation* L)
{
    return L->getFilename().starts_with("/") ? L->getFilename().str() : (L->getDirectory() + "/" + L->getFilename()).str();
}

std::string loc(const Instruction& I)
{
    if (const DILocation* L = I.getDebugLoc()) {
        std::string s = file(L) + ":" + std::to_string(L->getLine());
        while ((L = L->getInlinedAt())) {
            s += " < " + file(L) + ":" + std::to_string(L->getLine());
        }
        return s;
    }
    return "?:0";
}

std::string fn(const CallBase* C)
{
    if (auto* F = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts())) return F->getName().str();
    return "?";
}

bool is_new(StringRef n) { return n.starts_with("_Znwm") || n.starts_with("_Znam") || n == "malloc"; }
bool is_delete(StringRef n) { return n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv") || n == "free"; }

// What holds the pointer: SSA values and slots of local variables.  The second
// member is the offset of the slot, or Exact for an SSA value; Interior is added
// for what holds a pointer into the allocation rather than to its start.
using Key = std::pair<const Value*, int64_t>;
const int64_t Exact = int64_t(1) << 40;
const int64_t Interior = int64_t(1) << 50;
using Held = std::set<Key>;

struct Site
{
    const CallBase* A;              // allocation, or call which may allocate
    const DataLayout& DL;
    const DominatorTree& DT;
    std::string mismatch;
    const Instruction* exit = nullptr;
    const char* how = "";
    std::set<std::pair<const Argument*, int64_t>> given;    // members of arguments which receive it
    bool kept = false;              // some member still holds it when the function is left
    const std::map<const Function*, std::set<std::pair<unsigned, int64_t>>>* frees = nullptr;

    const Value* strip(const Value* V) const
    {
        return V->stripPointerCasts();
    }
    bool slot(const Value* P, Key& k) const
    {
        APInt off(64, 0);
        auto* B = P->stripAndAccumulateConstantOffsets(DL, off, true);
        if (!isa<AllocaInst>(B) && !isa<Argument>(B)) return false;
        k = {B, off.getSExtValue()};
        return true;
    }
    bool local(const Value* P) const
    {
        return isa<AllocaInst>(getUnderlyingObject(P));
    }
    bool holds(const Held& H, const Value* V) const
    {
        return H.count({strip(V), Exact});
    }
    bool inside(const Held& H, const Value* V) const
    {
        return holds(H, V) || H.count({strip(V), Exact + Interior});
    }
    void forget(Held& H, const Value* V) const
    {
        H.erase({V, Exact});
        H.erase({V, Exact + Interior});
    }
    void copy(Held& H, const Value* to, const Value* from) const
    {
        bool e = holds(H, from), i = inside(H, from);
        forget(H, to);
        if (e) H.insert({to, Exact});
        else if (i) H.insert({to, Exact + Interior});
    }

    enum Result { Go, Done, Leak };

    // Effects of an instruction (not control flow)
    Result step(const Instruction& I, Held& H)
    {
        if (auto* S = dyn_cast<StoreInst>(&I)) {
            bool h = holds(H, S->getValueOperand());
            bool in = inside(H, S->getValueOperand());
            Key k;
            if (slot(S->getPointerOperand(), k)) {
                H.erase(k);
                H.erase({k.first, k.second + Interior});
                if (h) H.insert(k);
                if (auto* Ar = dyn_cast<Argument>(k.first); Ar && h) given.insert({Ar, k.second});
                else if (!h && in) H.insert({k.first, k.second + Interior});
            } else if (h && !local(S->getPointerOperand())) {
                return Done;            // handed over to a longer-lived object
            }
            return Go;
        }
        if (auto* L = dyn_cast<LoadInst>(&I)) {
            Key k;
            forget(H, L);
            if (slot(L->getPointerOperand(), k)) {
                if (H.count(k)) H.insert({L, Exact});
                else if (H.count({k.first, k.second + Interior})) H.insert({L, Exact + Interior});
            }
            return Go;
        }
        if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
            forget(H, G);
            if (inside(H, G->getPointerOperand())) H.insert({G, Exact + Interior});
            return Go;
        }
        if (auto* Se = dyn_cast<SelectInst>(&I)) {
            // select p == null ? x : p
            bool e = holds(H, Se->getTrueValue()) || holds(H, Se->getFalseValue());
            bool in = inside(H, Se->getTrueValue()) || inside(H, Se->getFalseValue());
            forget(H, Se);
            if (e) H.insert({Se, Exact});
            else if (in) H.insert({Se, Exact + Interior});
            return Go;
        }
        if (auto* M = dyn_cast<MemTransferInst>(&I)) {
            Key d, s;
            bool dl = slot(M->getRawDest(), d), sl = slot(M->getRawSource(), s);
            auto* N = dyn_cast<ConstantInt>(M->getLength());
            int64_t n = N ? N->getSExtValue() : INT64_MAX / 4;
            Held moved;
            if (sl) for (auto& k: H) if (k.first == s.first && (k.second & (Interior - 1)) >= s.second && (k.second & (Interior - 1)) < s.second + n && !(k.second & Exact)) {
                if (!dl) return Done;
                moved.insert({d.first, k.second - s.second + d.second});
            }
            if (dl) for (auto it = H.begin(); it != H.end();) {
                if (it->first == d.first && (it->second & (Interior - 1)) >= d.second && (it->second & (Interior - 1)) < d.second + n) it = H.erase(it);
                else ++it;
            }
            H.insert(moved.begin(), moved.end());
            return Go;
        }
        if (auto* M = dyn_cast<MemSetInst>(&I)) {
            Key d;
            auto* N = dyn_cast<ConstantInt>(M->getLength());
            int64_t n = N ? N->getSExtValue() : INT64_MAX / 4;
            if (slot(M->getRawDest(), d)) for (auto it = H.begin(); it != H.end();) {
                if (it->first == d.first && (it->second & (Interior - 1)) >= d.second && (it->second & (Interior - 1)) < d.second + n) it = H.erase(it);
                else ++it;
            }
            return Go;
        }
        if (auto* C = dyn_cast<CallBase>(&I)) {
            if (isa<IntrinsicInst>(C)) return Go;
            auto n = fn(C);
            if (is_delete(n) && inside(H, C->getArgOperand(0))) {
                auto a = A ? fn(A) : "";
                if (is_new(a)) if ((a.rfind("_Znam", 0) == 0) != (n.rfind("_ZdaPv", 0) == 0) || (a == "malloc") != (n == "free")) {
                    mismatch = n;
                }
                return Done;
            }
            // std::list takes charge of its nodes
            if (n == "_ZNSt8__detail15_List_node_base7_M_hookEPS0_" && inside(H, C->getArgOperand(0))) return Done;
            for (auto& arg: C->args()) if (holds(H, arg.get()) && n == "?") return Done;
            for (unsigned i = 0; i < C->arg_size(); ++i) {
                auto* P = C->getArgOperand(i);
                Key k;
                if (!P->getType()->isPointerTy() || !slot(P, k)) continue;
                // another function takes care of what a member holds
                if (isa<Argument>(k.first) && &I != A) for (auto& h: H) if (h.first == k.first && h.second < Exact) { kept = true; return Done; }
                auto* F = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
                if (frees && F && frees->count(F)) for (auto& f: frees->at(F)) if (f.first == i && H.count({k.first, k.second + f.second})) return Done;
            }
            return Go;
        }
        return Go;
    }

    // Can the exception thrown by this call leave the function directly?
    static bool unwinds(const Instruction& I)
    {
        auto* C = dyn_cast<CallInst>(&I);
        return C && !isa<IntrinsicInst>(C) && !C->doesNotThrow() && !C->isInlineAsm();
    }

    void enter(const BasicBlock* from, const BasicBlock* to, Held& H) const
    {
        std::vector<std::pair<const Value*, int>> up;
        for (auto& P: to->phis()) {
            auto* V = P.getIncomingValueForBlock(from);
            up.push_back({&P, holds(H, V) ? 2 : inside(H, V) ? 1 : 0});
        }
        for (auto& u: up) {
            forget(H, u.first);
            if (u.second == 2) H.insert({u.first, Exact});
            if (u.second == 1) H.insert({u.first, Exact + Interior});
        }
        // values which no longer dominate cannot be used again
        for (auto it = H.begin(); it != H.end();) {
            auto* I = dyn_cast<Instruction>(it->first);
            if (I && !isa<AllocaInst>(I) && !DT.dominates(I->getParent(), to)) it = H.erase(it);
            else ++it;
        }
    }

    bool handed(const Held& H)
    {
        for (auto& k: H) if (isa<Argument>(k.first) && k.second < Exact) { kept = true; return true; }
        return false;
    }

    // What F->member holds when F is entered
    std::string entry(const Function& F, Key k)
    {
        return run(&F.getEntryBlock(), F.getEntryBlock().begin(), Held{k});
    }

    std::string run()
    {
        return run({A, Exact}, false);
    }

    std::string run(Key k, bool early)
    {
        Held H{k};
        if (auto* IV = dyn_cast<InvokeInst>(A)) {
            auto* N = IV->getNormalDest();
            if (early) {
                // the call may have allocated before it throws
                Held U = H;
                enter(A->getParent(), IV->getUnwindDest(), U);
                auto r = run(IV->getUnwindDest(), IV->getUnwindDest()->begin(), U);
                if (r != "ok") return r;
            }
            enter(A->getParent(), N, H);
            return run(N, N->begin(), H);
        }
        if (early && unwinds(*A)) { exit = A; how = "exception"; return "leak"; }
        return run(A->getParent(), std::next(A->getIterator()), H);
    }

    std::string run(const BasicBlock* Start, BasicBlock::const_iterator At, Held Init)
    {
        std::set<std::pair<const BasicBlock*, Held>> seen;
        struct Work { const BasicBlock* B; BasicBlock::const_iterator it; Held H; };
        std::vector<Work> work;
        bool origin = Init.count({A, Exact});
        work.push_back({Start, At, std::move(Init)});
        unsigned states = 0;
        while (!work.empty()) {
            auto w = std::move(work.back());
            work.pop_back();
            if (++states > 400000) return "limit";
            auto H = std::move(w.H);
            bool stop = false;
            const Instruction* term = w.B->getTerminator();
            for (auto it = w.it; it != w.B->end() && !stop; ++it) {
                const Instruction& I = *it;
                if (&I == A && origin) { stop = true; break; }
                if (isa<PHINode>(I)) continue;
                if (&I == term && !isa<InvokeInst>(I)) break;
                Held before = H;
                auto r = step(I, H);
                if (r == Done) {
                    stop = true;
                    break;
                }
                if (unwinds(I)) { if (handed(H)) continue; exit = &I; how = "exception"; return "leak"; }
                (void)before;
            }
            if (stop) continue;
            auto push = [&](const BasicBlock* S, Held h) {
                enter(w.B, S, h);
                // a slot of a dead variable or a value no longer dominating is harmless
                if (seen.insert({S, h}).second) work.push_back({S, S->begin(), std::move(h)});
            };
            if (auto* R = dyn_cast<ReturnInst>(term)) {
                if (R->getReturnValue() && returned(H, R->getReturnValue())) continue;
                if (handed(H)) continue;
                exit = R;
                how = "return";
                return "leak";
            }
            if (isa<ResumeInst>(term) && handed(H)) continue;
            if (isa<ResumeInst>(term)) { exit = term; how = "exception"; return "leak"; }
            if (isa<UnreachableInst>(term)) continue;
            if (auto* IV = dyn_cast<InvokeInst>(term)) {
                push(IV->getNormalDest(), H);
                push(IV->getUnwindDest(), H);
                continue;
            }
            if (auto* Br = dyn_cast<BranchInst>(term); Br && Br->isConditional()) {
                // a pointer known to hold the allocation is not null
                if (auto* C = dyn_cast<ICmpInst>(Br->getCondition()); C && C->isEquality()) {
                    auto* a = C->getOperand(0);
                    auto* b = C->getOperand(1);
                    if (isa<ConstantPointerNull>(a)) std::swap(a, b);
                    if (isa<ConstantPointerNull>(b) && inside(H, a)) {
                        bool eq = C->getPredicate() == ICmpInst::ICMP_EQ;
                        push(Br->getSuccessor(eq ? 1 : 0), H);
                        continue;
                    }
                }
            }
            for (auto* S: successors(w.B)) push(S, H);
        }
        return "ok";
    }

    bool returned(const Held& H, const Value* V) const
    {
        if (holds(H, V)) return true;
        if (auto* I = dyn_cast<InsertValueInst>(V)) {
            return returned(H, I->getAggregateOperand()) || returned(H, I->getInsertedValueOperand());
        }
        return false;
    }
};
}

int main(int argc, char** argv)
{
    LLVMContext ctx;
    for (int a = 1; a < argc; ++a) {
        SMDiagnostic err;
        auto M = parseIRFile(argv[a], err, ctx);
        if (!M) { err.print("irleak", errs()); return 2; }
        using Members = std::map<const Function*, std::set<std::pair<unsigned, int64_t>>>;
        Members owned, frees;
        std::map<const Function*, std::unique_ptr<DominatorTree>> trees;
        auto print = [&](Site& S, const Function& F, const Instruction& I, const std::string& what, const std::string& r) {
            outs() << F.getName() << "\t" << loc(I) << "\t" << what << "\t" << r;
            if (S.exit) outs() << "\t" << loc(*S.exit) << "\t" << S.how << "\t" <<
                (isa<CallBase>(S.exit) ? fn(cast<CallBase>(S.exit)) : "");
            outs() << "\n";
        };
        for (auto& F: *M) {
          if (F.isDeclaration()) continue;
          trees[&F] = std::make_unique<DominatorTree>(F);
          for (auto& B: F) for (auto& I: B) {
            auto* C = dyn_cast<CallBase>(&I);
            if (!C || !is_new(fn(C))) continue;
            Site S{C, M->getDataLayout(), *trees[&F]};
            auto r = S.run();
            print(S, F, I, fn(C), r);
            for (auto& g: S.given) owned[&F].insert({g.first->getArgNo(), g.second});
            if (!S.mismatch.empty()) {
                outs() << "D\t" << F.getName() << "\t" << loc(I) << "\t" << fn(C) << "\t" << S.mismatch << "\n";
            }
          }
        }
        // members of the arguments of a call which own an allocation afterwards
        auto acquired = [&](const CallBase* C) {
            std::set<std::pair<Key, bool>> out;
            auto* F = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
            if (!F || !owned.count(F)) return out;
            for (auto& o: owned.at(F)) {
                if (o.first >= C->arg_size()) continue;
                APInt off(64, 0);
                auto* B = C->getArgOperand(o.first)->stripAndAccumulateConstantOffsets(M->getDataLayout(), off, true);
                if (isa<AllocaInst>(B) || isa<Argument>(B)) out.insert({{B, off.getSExtValue() + o.second}, F->hasParamAttribute(o.first, Attribute::StructRet)});
            }
            return out;
        };
        for (bool changed = true; changed;) {
            changed = false;
            for (auto& F: *M) for (auto& B: F) for (auto& I: B) if (auto* C = dyn_cast<CallBase>(&I)) {
                for (auto& [k, created]: acquired(C)) {
                    if (auto* Ar = dyn_cast<Argument>(k.first)) changed |= owned[&F].insert({Ar->getArgNo(), k.second}).second;
                }
            }
        }
        // what an owner holds is freed before it holds something else
        std::set<int64_t> offsets;
        for (auto& o: owned) for (auto& m: o.second) {
            offsets.insert(m.second);
            if (o.first->hasParamAttribute(m.first, Attribute::StructRet)) continue;    // not created yet
            Site S{nullptr, M->getDataLayout(), *trees.at(o.first)};
            auto r = S.entry(*o.first, {o.first->getArg(m.first), m.second});
            print(S, *o.first, *o.first->getEntryBlock().getTerminator(), "owner", r);
        }
        // functions which free what a member holds in every case
        if (!offsets.empty()) for (auto& F: *M) {
            if (F.isDeclaration() || owned.count(&F)) continue;
            for (auto& Ar: F.args()) if (Ar.getType()->isPointerTy()) for (int64_t off: offsets) {
                Site S{nullptr, M->getDataLayout(), *trees.at(&F)};
                if (S.entry(F, {&Ar, off}) == "ok" && !S.kept) frees[&F].insert({Ar.getArgNo(), off});
            }
        }
        for (auto& F: *M) for (auto& B: F) for (auto& I: B) if (auto* C = dyn_cast<CallBase>(&I)) {
            for (auto& [k, created]: acquired(C)) if (isa<AllocaInst>(k.first)) {
                Site S{C, M->getDataLayout(), *trees.at(&F)};
                S.frees = &frees;
                auto r = S.run(k, !created);
                print(S, F, I, "object", r);
            }
        }
    }
}
