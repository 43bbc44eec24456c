// Gate recognition on a formula.
//   begin NAME / cnf CLAUSES / expect VARS / analyze METHOD TRIES / prune LITS (a model) / normalize / end
#include "drv.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/CandySolverResult.h"
#include "candy/core/SolverTypes.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/mtl/Stamp.h"
#include <map>
using namespace Candy;

static int ext(Lit l) { return (l.var() + 1) * (l.sign() ? -1 : 1); }
static Lit lit(int l) { return Lit(abs(l) - 1, l < 0); }
static std::vector<int> ext(const Cl& c) { std::vector<int> v; for (Lit l : c) v.push_back(ext(l)); return v; }
static void run(const std::vector<std::string>& lines) {
    CNFProblem problem; std::map<Cl*, int> id; std::vector<int> expect; GateAnalyzer* an = nullptr;
    auto ids = [&](const For& f) { std::vector<int> v; for (Cl* c : f) v.push_back(id.count(c) ? id[c] : 0); return drv::jl(v); };
    for (auto& ln : lines) {
        std::istringstream is(ln); std::string op; is >> op;
        if (op == "cnf") {
            for (auto& c : drv::clauses(is)) { Cl cl; for (int l : c) cl.push_back(lit(l)); problem.readClause(cl); }
            int n = 0; std::vector<std::vector<int>> cs;
            for (Cl* c : problem) { id[c] = ++n; cs.push_back(ext(*c)); }
            drv::emit(drv::ks("e", "cnf") + "," + drv::kv("cs", drv::jll(cs)));
        }
        else if (op == "expect") expect = drv::ints(is);
        else if (op == "analyze") {
            int m, t; is >> m >> t;
            an = new GateAnalyzer(problem, (GateRecognitionMethod)m, t, 0);
            an->analyze();
            GateProblem& g = an->getResult(); std::string gs = "["; bool f = true;
            for (const Gate& x : g) if (x.isDefined()) {
                gs += std::string(f ? "" : ",") + "{" + drv::ki("out", ext(x.out)) + "," + drv::kv("fwd", ids(x.fwd)) + "," + drv::kv("bwd", ids(x.bwd)) + "," + drv::kv("inp", drv::jl(ext(x.inp))) + "," + drv::kb("mono", !x.notMono) + "}"; f = false; }
            drv::emit(drv::ks("e", "analyze") + "," + drv::ki("method", m) + "," + drv::ki("tries", t) + "," + drv::kv("roots", ids(g.roots)) + "," + drv::kv("gates", gs + "]") + "," +
                drv::kv("rest", ids(g.remainder)) + "," + drv::ki("ng", g.nGates()) + "," + drv::ki("nm", g.nMonotonGates()) + "," + drv::ki("nr", g.nRoots()));
            drv::emit(drv::ks("e", "check") + "," + drv::ki("method", m) + "," + drv::kv("expect", drv::jl(expect)));
        }
        else if (op == "prune") {
            auto v = drv::ints(is); CandySolverResult r; for (int l : v) r.setModelValue(lit(l));
            For f = an->getResult().getPrunedProblem(r);
            drv::emit(drv::ks("e", "prune") + "," + drv::kv("m", drv::jl(v)) + "," + drv::kv("ids", ids(f)));
        }
        else if (op == "normalize") {
            GateProblem& g = an->getResult(); int root = g.nVars() + 1; g.normalizeRoots();
            std::vector<std::vector<int>> fw, rt; for (Cl* c : g[root - 1].fwd) fw.push_back(ext(*c));
            for (Cl* c : g.getRoots()) rt.push_back(ext(*c));
            std::vector<int> inp; for (Lit l : g[root - 1].inp) inp.push_back(ext(l));
            drv::emit(drv::ks("e", "normalize") + "," + drv::ki("root", root) + "," + drv::ki("out", ext(g[root - 1].out)) + "," + drv::kv("fwd", drv::jll(fw)) + "," + drv::kv("inp", drv::jl(inp)) + "," +
                drv::kv("roots", drv::jll(rt)) + "," + drv::ki("rest", g.remainder.size()) + "," + drv::ki("ng", g.nGates()) + "," + drv::kb("art", g.hasArtificialRoot()));
        }
    }
}
int main(int argc, char** argv) { return drv::main_(argc, argv, run); }
