// ordercheck FILE.bc [FUNCTION]: decides, for each function ord_<name> of the
// module, whether it sorts every array of vp_width_<function> elements.
//
// A forward analysis whose facts are the states of machine.h together with what
// the comparisons have established about the order of the elements (a preorder
// on the places where they are, closed under transitivity).  A comparison whose
// result does not follow from the order known so far leads to both results.
// States which agree on everything but how they were reached are joined.
//
// One line per function, tab-separated:
//   function  ok|bad|shape  width  states  detail  count comparisons moves swaps
// The last ones are summed over all the orders of distinct elements.
#include "machine.h"
using namespace machine;

namespace {
constexpr int max = 24;
struct Order {
    uint8_t r[max][max] = {};       // 1: not greater, 2: less
    bool add(int a, int b, int strict, int m)
    {
        // everything up to a against everything from b on
        for (int x = 0; x < m; ++x) {
            int xa = x == a ? 1 : r[x][a];
            if (!xa) continue;
            for (int y = 0; y < m; ++y) {
                int by = b == y ? 1 : r[b][y];
                if (!by) continue;
                int v = std::max(std::max(xa, by), strict);
                if (x == y) { if (v == 2) return false; continue; }
                if (r[x][y] < v) r[x][y] = v;
            }
        }
        return true;
    }
};

struct State {
    Machine M;
    Order O;
};

struct Result {
    bool ok = true;
    __int128 count = 0, comparisons = 0, moves = 0, swaps = 0;
};

struct Analysis {
    int n;
    bool weak;
    std::unordered_map<std::string, Result> memo;
    std::string why;
    bool shape = false;
    size_t limit = 6000000;

    std::string input(const Order& O)
    {
        // some order of the elements compatible with what is known
        std::vector<int> rank(n, -1);
        std::vector<bool> used(n);
        int next = 0;
        for (int k = 0; k < n;) {
            std::vector<int> level;
            for (int i = 0; i < n; ++i) {
                if (used[i]) continue;
                bool first = true;
                for (int j = 0; j < n; ++j) if (!used[j] && j != i && (O.r[j][i] == 2 || (O.r[j][i] == 1 && O.r[i][j] == 0))) first = false;
                if (first) level.push_back(i);
            }
            if (level.empty()) break;
            int i = level[0];
            used[i] = true;
            rank[i] = next++;
            for (int j : level) if (j != i && O.r[i][j] == 1 && O.r[j][i] == 1) { used[j] = true; rank[j] = rank[i]; ++k; }
            ++k;
        }
        std::string s;
        for (int i = 0; i < n; ++i) s += (i ? " " : "") + std::to_string(rank[i]);
        return s;
    }
    Result fail(const std::string& s, const Order& O, bool sh = false)
    {
        if (why.empty()) {
            why = s + (sh ? "" : " for an array ordered like " + input(O));
            shape = sh;
        }
        Result r;
        r.ok = false;
        return r;
    }
    // S is about to run
    Result go(State S)
    {
        int64_t moves = S.M.moves, swaps = S.M.swaps;
        Event e;
        int a, b, known;
        while (true) {
            e = S.M.run();
            if (e != compared) break;
            a = S.M.tokens[S.M.left];
            b = S.M.tokens[S.M.right];
            known = -1;
            if (a == b) known = 0;
            else if (S.O.r[a][b] == 2) known = 1;
            else if (S.O.r[b][a]) known = 0;
            // what is known already counts as a comparison too
            if (known < 0 || !weak) break;
            S.M.resume(known);
        }
        moves = S.M.moves - moves;
        swaps = S.M.swaps - swaps;
        if (e == error) return fail(S.M.why, S.O, S.M.shape);
        Result r;
        if (e == done) {
            if (S.M.tokens.size() != size_t(n)) return fail("some elements are lost", S.O);
            int last = -1;
            for (int i = 0; i < n; ++i) {
                auto it = S.M.tokens.find({0, i * element});
                if (it == S.M.tokens.end()) return fail("some elements are not moved back", S.O);
                if (last >= 0 && !S.O.r[last][it->second]) {
                    // show an order under which it is not sorted
                    S.O.add(it->second, last, 2, n);
                    return fail("elements " + std::to_string(i - 1) + " and " + std::to_string(i) + " are not sorted", S.O);
                }
                last = it->second;
            }
            r.count = 1;
            r.moves = moves;
            r.swaps = swaps;
            return r;
        }
        std::vector<Place> order;
        std::string key = S.M.key(order);
        for (auto& p : order) for (auto& q : order) key += char(S.O.r[S.M.tokens[p]][S.M.tokens[q]]);
        auto it = memo.find(key);
        if (it == memo.end()) {
            if (memo.size() > limit) return fail("too many states", S.O, true);
            it = memo.emplace(key, Result{}).first;
            Result sum;
            for (int result = 0; result < 2; ++result) {
                if (known >= 0 && known != result) continue;
                State T = S;
                if (known < 0 && !(result ? T.O.add(a, b, 2, n) : T.O.add(b, a, weak ? 1 : 2, n))) continue;
                T.M.resume(result);
                Result x = go(std::move(T));
                if (!x.ok) return x;
                sum.count += x.count;
                sum.comparisons += x.comparisons;
                sum.moves += x.moves;
                sum.swaps += x.swaps;
            }
            sum.comparisons += sum.count;
            memo[key] = sum;
            it = memo.find(key);
        }
        r = it->second;
        r.moves += r.count * moves;
        r.swaps += r.count * swaps;
        return r;
    }
};

std::string str(__int128 v)
{
    if (v == 0) return "0";
    std::string s;
    while (v) { s += char('0' + int(v % 10)); v /= 10; }
    std::reverse(s.begin(), s.end());
    return s;
}
}

int main(int argc, char** argv)
{
    LLVMContext C;
    SMDiagnostic E;
    auto M = parseIRFile(argv[1], E, C);
    if (!M) { E.print(argv[0], errs()); return 2; }
    for (const Function& F : *M) {
        if (!F.getName().starts_with("ord_") || F.isDeclaration()) continue;
        if (argc > 2 && F.getName() != argv[2]) continue;
        int n = cast<ConstantInt>(M->getNamedGlobal(("vp_width_" + F.getName()).str())->getInitializer())->getSExtValue();
        Result r;
        size_t states = 0;
        std::string why;
        bool shape = false;
        for (bool weak : {true, false}) {
            if (!weak && (!why.empty() || (argc > 3 && std::string(argv[3]) == "sorted"))) break;
            Shared S{M->getDataLayout()};
            Analysis A;
            A.n = n;
            A.weak = weak;
            r = A.go(State{Machine(&S, &F, n), Order()});
            states += A.memo.size();
            why = A.why;
            shape = A.shape;
        }
        outs() << F.getName() << '\t' << (why.empty() ? "ok" : shape ? "shape" : "bad") << '\t' << n << '\t' << states << '\t' << why << '\t'
               << str(r.count) << ' ' << str(r.comparisons) << ' ' << str(r.moves) << ' ' << str(r.swaps) << '\n';
        outs().flush();
    }
}
