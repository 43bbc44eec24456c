// Abstraction refinement.
//   begin NAME / nvars N / class LITS / bb LITS / remove VARS (one line per step, the first one for the initial step) / refine
//   begin NAME / opt -x / cnf CLAUSES / class .. / bb .. / remove .. / solve HEUR (ARSolver with a real solver) / factory / end
#include "drv.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/CandySolverInterface.h"
#include "candy/core/CandySolverResult.h"
#include "candy/core/SolverTypes.h"
#include "candy/frontend/CLIOptions.h"
#include "candy/randomsimulation/Conjectures.h"
#include "candy/rsar/ApproximationState.h"
#include "candy/rsar/ARSolver.h"
#include "candy/rsar/Heuristics.h"
#include "candy/rsar/Refinement.h"
#include "candy/frontend/SolverFactory.h"
#include "candy/utils/Options.h"
#include <set>
using namespace Candy;
static int ext(Lit l) { return (l.var() + 1) * (l.sign() ? -1 : 1); }
static Lit lit(int l) { return Lit(abs(l) - 1, l < 0); }
static std::vector<int> ext(const Cl& c) { std::vector<int> v; for (Lit l : c) v.push_back(ext(l)); return v; }
struct Steps : public RefinementHeuristic {
    std::vector<std::set<int>> steps; int k = 0;
    explicit Steps(const std::vector<std::set<int>>& s) : steps(s) {}
    void beginRefinementStep() override { k++; }
    bool has(Var v) { return k <= (int)steps.size() && steps[k - 1].count(v + 1); }
    void markRemovals(EquivalenceImplications& e) override { for (Implication i : e) if (has(i.first.var())) e.addVariableRemovalToWorkQueue(i.first.var()); }
    void markRemovals(Backbones& b) override { for (Lit l : b) if (has(l.var())) b.addVariableRemovalToWorkQueue(l.var()); }
};
static void run(const std::vector<std::string>& lines) {
    CNFProblem problem; int n = 0; std::unique_ptr<Conjectures> conj(new Conjectures()); std::vector<std::vector<int>> classes; std::vector<int> bbs; std::vector<std::set<int>> steps; std::vector<std::string> opts;
    auto head = [&]() { drv::emit(drv::ks("e", "conjectures") + "," + drv::kv("classes", drv::jll(classes)) + "," + drv::kv("bbs", drv::jl(bbs))); };
    for (auto& ln : lines) {
        std::istringstream is(ln); std::string op; is >> op;
        if (op == "nvars") is >> n;
        else if (op == "opt") { std::string o; is >> o; opts.push_back(o); }
        else if (op == "cnf") {
            auto cs = drv::clauses(is);
            for (auto& c : cs) { Cl cl; for (int l : c) cl.push_back(lit(l)); problem.readClause(cl); }
            drv::emit(drv::ks("e", "cnf") + "," + drv::kv("cs", drv::jll(cs)));
        }
        else if (op == "class") { auto v = drv::ints(is); EquivalenceConjecture e; for (int l : v) e.addLit(lit(l)); conj->addEquivalence(e); classes.push_back(v); }
        else if (op == "bb") { for (int l : drv::ints(is)) { conj->addBackbone(BackboneConjecture(lit(l))); bbs.push_back(l); } }
        else if (op == "remove") { auto v = drv::ints(is); steps.emplace_back(v.begin(), v.end()); }
        else if (op == "refine") {
            head(); int next = n; std::vector<std::unique_ptr<RefinementHeuristic>> hs; hs.emplace_back(new Steps(steps));
            auto st = createDefaultRefinementStrategy(*conj, std::move(hs), [&]() { return next++; });
            for (size_t i = 0; i < steps.size(); i++) {
                auto d = i ? st->refine() : st->init(); std::vector<std::vector<int>> cs; std::vector<int> as, rm(steps[i].begin(), steps[i].end());
                for (auto& c : d->getNewClauses()) cs.push_back(ext(c)); for (Lit l : d->getAssumptionLiterals()) as.push_back(ext(l));
                drv::emit(drv::ks("e", i ? "refine" : "init") + "," + drv::kv("rm", drv::jl(rm)) + "," + drv::kv("new", drv::jll(cs)) + "," + drv::kv("as", drv::jl(as)) + "," + drv::ki("on", d->countEnabledClauses()));
            }
        }
        else if (op == "solve" || op == "factory") {
            std::vector<char*> av; std::string prog = "x"; av.push_back(&prog[0]); for (auto& o : opts) av.push_back(&o[0]);
            int ac = av.size(); parseOptions(ac, av.data(), true);
            int heur = 0; is >> heur; head(); drv::emit(drv::ks("e", "call"));
            CandySolverInterface* s = op == "factory" ? createRSARSolver(problem) :
                heur ? new ARSolver(std::move(conj), std::unique_ptr<RefinementHeuristic>(new Steps(steps))) : new ARSolver(std::move(conj));
            if (!s) { drv::emit(drv::ks("e", "none")); continue; }
            s->init(problem); lbool r = s->solve(); std::vector<int> m; bool cons = true;
            if (r == l_True) { auto& res = s->getCandySolverResult(); for (Var v = 0; v < (Var)problem.nVars(); v++) { Lit a = res.value(v); cons &= a.var() == v; m.push_back(ext(a)); } }
            drv::emit(drv::ks("e", "solve") + "," + drv::ki("r", r == l_True ? 10 : r == l_False ? 20 : 0) + "," + drv::kv("m", drv::jl(m)) + "," + drv::kb("cons", cons));
        }
    }
}
int main(int argc, char** argv) { return drv::main_(argc, argv, run); }
