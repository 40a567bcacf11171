// canon FILE.bc...: prints a canonical form of every function vp_got_* and
// vp_want_*: ordered effects with their operands expanded into expressions, so
// that the order and the names of pure operations do not matter.
#include <llvm/IR/Constants.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <string>
#include <vector>
using namespace llvm;

namespace {
struct Canon {
    Function& F;
    const DataLayout& DL;
    std::map<const Value*, int> ids;
    std::map<const BasicBlock*, int> blocks;
    std::string out;
    int next = 0;

    explicit Canon(Function& F): F(F), DL(F.getParent()->getDataLayout()) {}

    static std::string str(const Constant* C)
    {
        std::string s;
        raw_string_ostream os(s);
        C->printAsOperand(os, true);
        return os.str();
    }
    static std::string ty(const Type* T)
    {
        std::string s;
        raw_string_ostream os(s);
        const_cast<Type*>(T)->print(os);
        return os.str();
    }

    std::string val(const Value* V)
    {
        if (auto* C = dyn_cast<Constant>(V)) {
            return str(C);
        }
        if (auto* A = dyn_cast<Argument>(V)) {
            return "a" + std::to_string(A->getArgNo());
        }
        if (auto* B = dyn_cast<BasicBlock>(V)) {
            return "b" + std::to_string(blocks[B]);
        }
        auto it = ids.find(V);
        if (it != ids.end()) {
            return "v" + std::to_string(it->second);
        }
        if (auto* I = dyn_cast<Instruction>(V)) {
            if (isa<PHINode>(I) || effect(*I)) {
                // forward reference (loop): name by position of first use
                int id = ids[V] = next++;
                return "v" + std::to_string(id);
            }
            std::string e = expr(*I);
            return e;
        }
        return "?";
    }

    static bool effect(const Instruction& I)
    {
        if (isa<AllocaInst>(I)) {
            return true;
        }
        if (auto* L = dyn_cast<LoadInst>(&I)) {
            (void)L;
            return true;
        }
        if (auto* C = dyn_cast<CallInst>(&I)) {
            return !(C->doesNotAccessMemory() && C->willReturn() && !C->mayThrow());
        }
        return I.mayReadOrWriteMemory() || I.isTerminator();
    }

    std::string expr(const Instruction& I)
    {
        if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
            APInt off(64, 0);
            MapVector<Value*, APInt> var;
            if (G->collectOffset(DL, 64, var, off)) {
                std::string s = "gep(" + val(G->getPointerOperand());
                for (auto& p: var) {
                    s += " + " + val(p.first) + "*" + std::to_string(p.second.getSExtValue());
                }
                return s + " + " + std::to_string(off.getSExtValue()) + ")";
            }
        }
        std::vector<std::string> ops;
        for (auto& U: I.operands()) {
            ops.push_back(val(U.get()));
        }
        if (I.isCommutative() && ops.size() >= 2 && ops[1] < ops[0]) {
            std::swap(ops[0], ops[1]);
        }
        std::string s = I.getOpcodeName();
        if (auto* C = dyn_cast<CmpInst>(&I)) {
            s += std::string(" ") + CmpInst::getPredicateName(C->getPredicate()).str();
        }
        s += ":" + ty(I.getType()) + "(";
        for (auto& o: ops) {
            s += o + ",";
        }
        return s + ")";
    }

    static bool skip(const Instruction& I)
    {
        if (I.isDebugOrPseudoInst()) {
            return true;
        }
        if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
            switch (II->getIntrinsicID()) {
                case Intrinsic::lifetime_start:
                case Intrinsic::lifetime_end:
                case Intrinsic::assume:
                case Intrinsic::experimental_noalias_scope_decl:
                    return true;
                default:
                    break;
            }
        }
        return false;
    }

    void run()
    {
        ReversePostOrderTraversal<Function*> rpo(&F);
        int n = 0;
        for (auto* B: rpo) {
            blocks[B] = n++;
        }
        for (auto* B: rpo) {
            out += "b" + std::to_string(blocks[B]) + ":\n";
            for (auto& I: *B) {
                if (skip(I)) {
                    continue;
                }
                if (auto* P = dyn_cast<PHINode>(&I)) {
                    std::map<int, std::string> in;
                    for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
                        in[blocks[P->getIncomingBlock(i)]] = val(P->getIncomingValue(i));
                    }
                    std::string s = "phi(";
                    for (auto& p: in) {
                        s += "b" + std::to_string(p.first) + ":" + p.second + ",";
                    }
                    define(I, s + ")");
                } else if (auto* C = effect(I) ? dyn_cast<CallBase>(&I) : nullptr) {
                    std::string s = "call " + val(C->getCalledOperand()) + "(";
                    for (auto& a: C->args()) {
                        s += val(a.get()) + ",";
                    }
                    s += ")";
                    if (auto* V = dyn_cast<InvokeInst>(&I)) {
                        s += " to " + val(V->getNormalDest()) + " unwind " + val(V->getUnwindDest());
                    }
                    define(I, s);
                } else if (effect(I)) {
                    std::string s = I.getOpcodeName();
                    if (auto* A = dyn_cast<AllocaInst>(&I)) {
                        s += " " + ty(A->getAllocatedType());
                    }
                    s += ":" + ty(I.getType());
                    s += "(";
                    for (auto& U: I.operands()) {
                        s += val(U.get()) + ",";
                    }
                    define(I, s + ")");
                }
            }
        }
    }

    void define(const Instruction& I, const std::string& s)
    {
        if (!I.getType()->isVoidTy()) {
            if (!ids.count(&I)) {
                ids[&I] = next++;
            }
            out += "  v" + std::to_string(ids[&I]) + " = ";
        } else {
            out += "  ";
        }
        out += s + "\n";
    }
};
}

int main(int argc, char** argv)
{
    for (int i = 1; i < argc; ++i) {
        LLVMContext ctx;
        SMDiagnostic err;
        auto M = parseIRFile(argv[i], err, ctx);
        if (!M) {
            err.print(argv[0], errs());
            return 2;
        }
        for (auto& F: *M) {
            if (F.isDeclaration()) {
                continue;
            }
            StringRef name = F.getName();
            if (!name.starts_with("vp_got_") && !name.starts_with("vp_want_")) {
                continue;
            }
            Canon c(F);
            c.run();
            outs() << "=== " << name << "\n" << c.out;
        }
    }
    return 0;
}
