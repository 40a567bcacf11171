// irgraph FILE.bc: prints facts about every function definition, one per line,
// tab-separated:
//   F  name  demangled  linkage  nounwind  file:line  comdat
//   C  caller  callee|?type  call|invoke|caught  nounwind  file:line
//   T  function  callee  file:line     invoke whose unwinding terminates
//   S  function  file:line  types      catch handler which can be left normally
//   D  name  demangled  nounwind       declaration of a function
//   A  name  type                      function whose address is taken
//   V  function  file:line             alloca of variable size
//   W  function  global  file:line     store to a global variable
//   G  name  demangled  linkage  const|mutable  thread_local
//   N  function  file:line  what       use of a nothrow allocation without test
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

namespace {
std::string file(const DILocation* L)
{
    return L->getFilename().starts_with("/") ? L->getFilename().str() : (L->getDirectory() + "/" + L->getFilename()).str();
}

std::string loc(const Instruction& I)
{
    if (const DILocation* L = I.getDebugLoc()) {
        return file(L) + ":" + std::to_string(L->getLine());
    }
    return "?:0";
}

std::string loc(const Function& F)
{
    if (const DISubprogram* S = F.getSubprogram()) {
        return (S->getDirectory() + "/" + S->getFilename()).str() + ":" + std::to_string(S->getLine());
    }
    return "?:0";
}

std::string fn(const Value* V)
{
    V = V->stripPointerCasts();
    if (auto* A = dyn_cast<GlobalAlias>(V)) V = A->getAliasee()->stripPointerCasts();
    if (auto* F = dyn_cast<Function>(V)) return F->getName().str();
    return "?";
}

std::string str(const Type* T)
{
    std::string s;
    raw_string_ostream o(s);
    T->print(o);
    return s;
}

std::string callee_of(const CallBase* C)
{
    auto n = fn(C->getCalledOperand());
    return n == "?" ? "?" + str(C->getFunctionType()) : n;
}

// Blocks executed while no exception is in flight: reached from the entry or
// from the start of a handler without following an unwind edge
std::set<const BasicBlock*> normal_blocks(const Function& F)
{
    std::vector<const BasicBlock*> work{&F.getEntryBlock()};
    for (auto& B: F) for (auto& I: B) {
        if (auto* C = dyn_cast<CallBase>(&I)) {
            if (fn(C->getCalledOperand()) == "__cxa_begin_catch") work.push_back(&B);
        }
    }
    std::set<const BasicBlock*> seen;
    while (!work.empty()) {
        auto* B = work.back();
        work.pop_back();
        if (!seen.insert(B).second) continue;
        if (auto* IV = dyn_cast<InvokeInst>(B->getTerminator())) work.push_back(IV->getNormalDest());
        else for (auto* S: successors(B)) work.push_back(S);
    }
    return seen;
}

// What a handler catches: every catch clause of the landing pads its
// exception pointer comes from
void clauses(const Value* V, std::set<const Value*>& seen, std::set<std::string>& out)
{
    if (!seen.insert(V).second) return;
    if (auto* E = dyn_cast<ExtractValueInst>(V)) return clauses(E->getAggregateOperand(), seen, out);
    if (auto* I = dyn_cast<InsertValueInst>(V)) {
        clauses(I->getAggregateOperand(), seen, out);
        clauses(I->getInsertedValueOperand(), seen, out);
        return;
    }
    if (auto* P = dyn_cast<PHINode>(V)) {
        for (auto& U: P->incoming_values()) clauses(U.get(), seen, out);
        return;
    }
    if (auto* L = dyn_cast<LandingPadInst>(V)) {
        for (unsigned i = 0; i < L->getNumClauses(); ++i) {
            if (!L->isCatch(i)) { out.insert("filter"); continue; }
            auto* C = L->getClause(i)->stripPointerCasts();
            out.insert(isa<ConstantPointerNull>(C) ? "any" : C->getName().str());
        }
        return;
    }
    if (auto* L = dyn_cast<LoadInst>(V)) {
        // at -O0 the exception pointer goes through a slot
        for (auto* U: L->getPointerOperand()->users()) {
            if (auto* S = dyn_cast<StoreInst>(U)) clauses(S->getValueOperand(), seen, out);
        }
        return;
    }
    if (isa<UndefValue>(V)) return;
    out.insert("unknown");
}

// Does unwinding to this block reach a handler for std::bad_alloc?
bool catches_bad_alloc(const BasicBlock* B)
{
    auto* L = B->getLandingPadInst();
    if (!L) return false;
    for (unsigned i = 0; i < L->getNumClauses(); ++i) {
        if (!L->isCatch(i)) continue;
        auto* C = L->getClause(i)->stripPointerCasts();
        // a catch-all handler is only written to clean up and rethrow
        if (!isa<ConstantPointerNull>(C) && (C->getName() == "_ZTISt9bad_alloc" || C->getName() == "_ZTISt9exception")) return true;
    }
    return false;
}

bool terminates(const BasicBlock* B)
{
    std::set<const BasicBlock*> seen;
    while (B && seen.insert(B).second) {
        for (auto& I: *B) {
            if (auto* C = dyn_cast<CallBase>(&I)) {
                auto n = fn(C->getCalledOperand());
                if (n == "__clang_call_terminate" || n == "_ZSt9terminatev") return true;
                if (n == "__cxa_begin_catch" || n == "_Unwind_Resume") return false;
            }
        }
        B = B->getSingleSuccessor();
    }
    return false;
}

// From a catch, can the function go on without rethrowing?
bool swallows(const Instruction* begin)
{
    std::vector<const BasicBlock*> work{begin->getParent()};
    std::set<const BasicBlock*> seen;
    bool first = true;
    while (!work.empty()) {
        auto* B = work.back();
        work.pop_back();
        if (!seen.insert(B).second) continue;
        bool stop = false;
        bool started = !first;
        for (auto& I: *B) {
            if (&I == begin) started = true;
            if (!started) continue;
            if (auto* C = dyn_cast<CallBase>(&I)) {
                auto n = fn(C->getCalledOperand());
                if (n == "__cxa_rethrow") { stop = true; break; }
                if (n == "__clang_call_terminate" || n == "_ZSt9terminatev") { stop = true; break; }
                if (n == "__cxa_end_catch" && !isa<InvokeInst>(C)) {
                    // left the handler: swallowed unless this is the cleanup of a rethrow
                    bool resumes = false;
                    std::set<const BasicBlock*> s2;
                    const BasicBlock* X = B;
                    while (X && s2.insert(X).second) {
                        if (isa<ResumeInst>(X->getTerminator())) { resumes = true; break; }
                        if (X->getSingleSuccessor()) X = X->getSingleSuccessor();
                        else break;
                    }
                    if (!resumes) return true;
                    stop = true;
                    break;
                }
            }
            if (isa<ReturnInst>(I)) return true;
        }
        first = false;
        if (stop) continue;
        if (auto* IV = dyn_cast<InvokeInst>(B->getTerminator())) {
            // an exception thrown by the handler replaces the current one
            work.push_back(IV->getNormalDest());
            continue;
        }
        for (auto* S: successors(B)) work.push_back(S);
    }
    return false;
}
}


// A use of an address as a number for anything but a distance
static const Instruction* address_use(const Instruction* v)
{
    for (auto* u: v->users()) {
        auto* I = dyn_cast<Instruction>(u);
        if (I && I->getOpcode() == Instruction::Sub && isa<PtrToIntInst>(I->getOperand(0)) && isa<PtrToIntInst>(I->getOperand(1))) continue;
        // A structure made of a pointer is passed as an integer
        if (I && isa<CallBase>(I) && I->getDebugLoc() && I->getDebugLoc() == v->getDebugLoc()) continue;
        if (I) return I;
    }
    return nullptr;
}

int main(int argc, char** argv)
{
    LLVMContext ctx;
    for (int a = 1; a < argc; ++a) {
        SMDiagnostic err;
        auto M = parseIRFile(argv[a], err, ctx);
        if (!M) { err.print("irgraph", errs()); return 2; }
        for (auto& G: M->globals()) {
            if (G.isDeclaration()) continue;
            outs() << "G\t" << G.getName() << "\t" << demangle(G.getName().str()) << "\t" << (int)G.getLinkage() << "\t"
                   << (G.isConstant() ? "const" : "mutable") << "\t" << G.isThreadLocal() << "\n";
        }
        for (auto& F: *M) {
            if (F.hasAddressTaken()) outs() << "A\t" << F.getName() << "\t" << str(F.getFunctionType()) << "\n";
            if (F.isDeclaration()) {
                if (!F.isIntrinsic()) outs() << "D\t" << F.getName() << "\t" << demangle(F.getName().str()) << "\t" << F.doesNotThrow() << "\n";
                continue;
            }
            auto normal = normal_blocks(F);
            auto name = F.getName().str();
            outs() << "F\t" << name << "\t" << demangle(name) << "\t" << (int)F.getLinkage() << "\t"
                   << F.doesNotThrow() << "\t" << loc(F) << "\t" << F.hasComdat() << "\n";
            for (auto& B: F) for (auto& I: B) {
                if (auto* C = dyn_cast<CallBase>(&I)) {
                    if (isa<IntrinsicInst>(C)) continue;
                    auto callee = callee_of(C);
                    outs() << "C\t" << name << "\t" << callee << "\t" << (!isa<InvokeInst>(C) ? "call" : catches_bad_alloc(cast<InvokeInst>(C)->getUnwindDest()) ? "caught" : "invoke")
                           << "\t" << C->doesNotThrow() << "\t" << loc(I) << "\n";
                    if (auto* IV = dyn_cast<InvokeInst>(C)) {
                        if (callee != "__cxa_end_catch" && normal.count(&B) && terminates(IV->getUnwindDest())) {
                            outs() << "T\t" << name << "\t" << callee << "\t" << loc(I) << "\n";
                        }
                    }
                    if (callee == "__cxa_begin_catch" && swallows(C)) {
                        std::set<const Value*> seen;
                        std::set<std::string> what;
                        clauses(C->getArgOperand(0), seen, what);
                        outs() << "S\t" << name << "\t" << loc(I) << "\t";
                        for (auto& w: what) outs() << w << " ";
                        outs() << "\n";
                    }
                }
                if (auto* A = dyn_cast<AllocaInst>(&I)) {
                    if (!A->isStaticAlloca()) outs() << "V\t" << name << "\t" << loc(I) << "\n";
                }
                if (isa<PtrToIntInst>(I)) {
                    if (auto* u = address_use(&I)) outs() << "P\t" << name << "\t" << loc(*u) << "\t" << loc(I) << "\n";
                }
                const Value* dst = nullptr;
                if (auto* S = dyn_cast<StoreInst>(&I)) dst = S->getPointerOperand();
                if (auto* R = dyn_cast<AtomicRMWInst>(&I)) dst = R->getPointerOperand();
                if (auto* R = dyn_cast<AtomicCmpXchgInst>(&I)) dst = R->getPointerOperand();
                if (auto* R = dyn_cast<MemIntrinsic>(&I)) dst = R->getRawDest();
                if (dst) {
                    dst = dst->stripInBoundsOffsets();
                    if (auto* G = dyn_cast<GlobalVariable>(dst)) {
                        outs() << "W\t" << name << "\t" << G->getName() << "\t" << loc(I) << "\n";
                    }
                }
            }
        }
    }
}
