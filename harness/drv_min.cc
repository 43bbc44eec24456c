// Model minimization.
//   begin NAME / cnf CLAUSES / model LITS / minimize PRUNED MINIMAL PROJECT / end
#include "drv.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/CandySolverResult.h"
#include "candy/core/SolverTypes.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/minimizer/Minimizer.h"
using namespace Candy;
static int ext(Lit l) { return (l.var() + 1) * (l.sign() ? -1 : 1); }
static Lit lit(int l) { return Lit(abs(l) - 1, l < 0); }
static std::vector<int> ext(const std::vector<Lit>& c) { std::vector<int> v; for (Lit l : c) v.push_back(ext(l)); return v; }
static void run(const std::vector<std::string>& lines) {
    CNFProblem problem; CandySolverResult model; std::vector<int> given; std::vector<std::vector<int>> cs;
    for (auto& ln : lines) {
        std::istringstream is(ln); std::string op; is >> op;
        if (op == "cnf") { cs = drv::clauses(is); for (auto& c : cs) { Cl cl; for (int l : c) cl.push_back(lit(l)); problem.readClause(cl); } }
        else if (op == "model") { given = drv::ints(is); for (int l : given) model.setModelValue(lit(l)); }
        else if (op == "minimize") {
            int p, m, j; is >> p >> m >> j;
            std::vector<int> outs; std::vector<std::vector<int>> hs; 
            { GateAnalyzer an(problem); an.analyze(); GateProblem& g = an.getResult(); for (const Gate& x : g) if (x.isDefined()) outs.push_back(x.out.var() + 1);
              if (p) for (Cl* c : g.getPrunedProblem(model)) hs.push_back(ext(*c)); else hs = cs; }
            Minimizer min(problem, model); min.mimimizeModel(p, m, j);
            drv::emit(drv::ks("e", "minimize") + "," + drv::kv("cs", drv::jll(cs)) + "," + drv::kv("m", drv::jl(given)) + "," + drv::kv("outs", drv::jl(outs)) + "," + drv::kv("hs", drv::jll(hs)) + "," + drv::kb("pruned", p) + "," + drv::kb("minimal", m) + "," +
                drv::kb("project", j) + "," + drv::kv("min", drv::jl(ext(model.getMinimizedModelLiterals()))) + "," + drv::kv("after", drv::jl(ext(model.getModelLiterals()))));
        }
    }
}
int main(int argc, char** argv) { return drv::main_(argc, argv, run); }
