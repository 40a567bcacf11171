// irtemp FILE.bc: follows the elements (vp::mv) which live in local variables
// through the control flow of every function, without the unwind edges.  An
// element is in some of three states: absent, holding a value, moved from.
// Tab-separated lines:
//   function  file:line of the construction  ok|lost|overwritten|use|limit  [file:line]
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

namespace {
std::string file(const DILocation* L)
{
    return L->getFilename().starts_with("/") ? L->getFilename().str() : (L->getDirectory() + "/" + L->getFilename()).str();
}
std::string loc(const Instruction& I)
{
    if (const DILocation* L = I.getDebugLoc()) {
        std::string s = file(L) + ":" + std::to_string(L->getLine());
        while ((L = L->getInlinedAt())) s += " < " + file(L) + ":" + std::to_string(L->getLine());
        return s;
    }
    return "?:0";
}
StringRef fn(const CallBase* C)
{
    if (auto* F = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts())) return F->getName();
    return "";
}
bool is_ctor(StringRef n) { return n == "_ZN2vp2mvC1EOS0_" || n == "_ZN2vp2mvC2EOS0_"; }
bool is_assign(StringRef n) { return n == "_ZN2vp2mvaSEOS0_"; }
bool is_dtor(StringRef n) { return n == "_ZN2vp2mvD1Ev" || n == "_ZN2vp2mvD2Ev"; }

enum : unsigned { Absent = 1, Full = 2, Moved = 4 };
using Key = std::pair<const AllocaInst*, int64_t>;
using State = std::map<Key, unsigned>;

struct Run {
    Function& F;
    const DataLayout& DL;
    std::set<Key> keys;
    std::set<const AllocaInst*> limit;
    std::map<Key, std::set<std::string>> sites;
    std::map<std::pair<Key, std::string>, std::string> bad;

    explicit Run(Function& F): F(F), DL(F.getParent()->getDataLayout()) {}

    bool exact(const Value* P, Key& k) const
    {
        APInt off(64, 0);
        auto* B = P->stripAndAccumulateConstantOffsets(DL, off, true);
        auto* A = dyn_cast<AllocaInst>(B);
        if (!A) return false;
        k = {A, off.getSExtValue()};
        return true;
    }
    void touch(const Value* P, std::set<const AllocaInst*>& out) const
    {
        SmallVector<const Value*, 4> objs;
        getUnderlyingObjects(P, objs, nullptr, 0);
        for (auto* O: objs) if (auto* A = dyn_cast<AllocaInst>(O)) out.insert(A);
    }
    void prepare()
    {
        std::set<const AllocaInst*> have;
        for (auto& BB: F) for (auto& I: BB) if (auto* C = dyn_cast<CallBase>(&I)) {
            if (!is_ctor(fn(C))) continue;
            Key k;
            if (exact(C->getArgOperand(0), k)) {
                keys.insert(k);
                have.insert(k.first);
                sites[k].insert(loc(I));
            } else {
                std::set<const AllocaInst*> t;
                touch(C->getArgOperand(0), t);
                limit.insert(t.begin(), t.end());
            }
        }
        for (auto& BB: F) for (auto& I: BB) {
            auto* C = dyn_cast<CallBase>(&I);
            if (C && isa<DbgInfoIntrinsic>(C)) continue;
            if (C) {
                if (auto* II = dyn_cast<IntrinsicInst>(C)) {
                    if (II->isLifetimeStartOrEnd()) continue;
                }
                for (auto& U: C->args()) {
                    if (!U->getType()->isPointerTy()) continue;
                    Key k;
                    if (exact(U, k) && keys.count(k)) {
                        auto* G = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
                        if (G && !G->isDeclaration()) limit.insert(k.first);
                        if (isa<IntrinsicInst>(C)) limit.insert(k.first);
                        continue;
                    }
                    // an object of which only some members are followed, or a
                    // pointer which may also lead elsewhere
                    std::set<const AllocaInst*> t;
                    touch(U, t);
                    for (auto* A: t) if (have.count(A)) {
                        if (exact(U, k)) {
                            auto* G = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
                            bool element = is_ctor(fn(C)) || is_assign(fn(C)) || is_dtor(fn(C));
                            if (!element && G && G->isDeclaration()) continue;  // another member
                        }
                        limit.insert(A);
                    }
                }
            }
            if (auto* S = dyn_cast<StoreInst>(&I)) {
                if (S->getValueOperand()->getType()->isPointerTy()) {
                    std::set<const AllocaInst*> t;
                    touch(S->getValueOperand(), t);
                    for (auto* A: t) if (have.count(A)) limit.insert(A);
                }
            }
        }
    }
    void complain(const Key& k, const char* what, const Instruction& I)
    {
        bad.emplace(std::make_pair(k, what), loc(I));
    }
    void step(const Instruction& I, State& S, bool report)
    {
        auto* C = dyn_cast<CallBase>(&I);
        if (!C || isa<IntrinsicInst>(C)) return;
        StringRef n = fn(C);
        Key a, b;
        bool ha = C->arg_size() > 0 && C->getArgOperand(0)->getType()->isPointerTy() && exact(C->getArgOperand(0), a) && keys.count(a);
        bool hb = C->arg_size() > 1 && C->getArgOperand(1)->getType()->isPointerTy() && exact(C->getArgOperand(1), b) && keys.count(b);
        if (is_ctor(n) || is_assign(n)) {
            if (hb) {
                if (report && S[b] & (Absent | Moved)) complain(b, "use", I);
                S[b] = Moved;
            }
            if (ha) {
                if (report && is_assign(n) && S[a] & Full) complain(a, "overwritten", I);
                S[a] = Full;
            }
            return;
        }
        if (is_dtor(n)) {
            if (ha) {
                if (report && S[a] & Full) complain(a, "lost", I);
                S[a] = Absent;
            }
            return;
        }
        for (auto& U: C->args()) {
            if (!U->getType()->isPointerTy()) continue;
            Key k;
            if (exact(U, k) && keys.count(k) && S.count(k)) {
                if (report && S[k] & Moved) complain(k, "use", I);
            }
        }
    }
    void run()
    {
        prepare();
        if (keys.empty()) return;
        std::map<const BasicBlock*, State> in;
        State init;
        for (auto& k: keys) init[k] = Absent;
        in[&F.getEntryBlock()] = init;
        std::vector<const BasicBlock*> work{&F.getEntryBlock()};
        while (!work.empty()) {
            auto* BB = work.back();
            work.pop_back();
            State S = in[BB];
            for (auto& I: *BB) step(I, S, false);
            for (auto* T: successors(BB)) {
                if (auto* V = dyn_cast<InvokeInst>(BB->getTerminator())) if (T == V->getUnwindDest()) continue;
                auto it = in.find(T);
                if (it == in.end()) { in[T] = S; work.push_back(T); continue; }
                bool ch = false;
                for (auto& p: S) {
                    unsigned& o = it->second[p.first];
                    if ((o | p.second) != o) { o |= p.second; ch = true; }
                }
                if (ch) work.push_back(T);
            }
        }
        for (auto& p: in) {
            State S = p.second;
            for (auto& I: *p.first) step(I, S, true);
        }
        for (auto& k: keys) {
            std::string where = sites[k].empty() ? "?" : *sites[k].begin();
            if (limit.count(k.first)) {
                outs() << F.getName() << '\t' << where << "\tlimit\n";
                continue;
            }
            bool any = false;
            for (auto* w: {"lost", "overwritten", "use"}) {
                auto it = bad.find({k, w});
                if (it == bad.end()) continue;
                any = true;
                outs() << F.getName() << '\t' << where << '\t' << w << '\t' << it->second << '\n';
            }
            if (!any) outs() << F.getName() << '\t' << where << "\tok\n";
        }
    }
};
}

int main(int argc, char** argv)
{
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { errs() << "cannot read\n"; return 2; }
    for (auto& F: *M) if (!F.isDeclaration()) Run(F).run();
}
