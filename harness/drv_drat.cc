// Runs the built-in proof checker on a formula and a proof.
//   begin NAME / proof PATH / cnf LITS / l LITS 0 / d LITS 0 ... / check / end
#include "drv.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/DRATChecker.h"
#include "candy/core/SolverTypes.h"
#include "candy/frontend/CLIOptions.h"
#include "candy/utils/Exceptions.h"
using namespace Candy;

static void run(const std::vector<std::string>& lines) {
    std::string path; std::ofstream pf;
    std::vector<std::vector<int>> cs;
    for (auto& ln : lines) {
        std::istringstream is(ln); std::string op; is >> op;
        if (op == "proof") { is >> path; pf.open(path, std::ios::trunc); }
        else if (op == "raw") { std::string rest; std::getline(is, rest); pf << rest << "\n"; }
        else if (op == "cnf") { for (auto& c : drv::clauses(is)) cs.push_back(c); drv::emit(drv::ks("e", "adds") + "," + drv::kv("cs", drv::jll(cs))); }
        else if (op == "l" || op == "d") {
            std::vector<int> c = drv::ints(is); c.pop_back();
            if (op == "d") pf << "d ";
            for (int l : c) pf << l << " ";
            pf << "0\n";
            drv::emit(drv::ks("e", op == "l" ? "lemma" : "del") + "," + drv::kv("c", drv::jl(c)));
        }
        else if (op == "check") {
            pf.close();
            SolverOptions::opt_certified_file = "";
            std::string v = "error"; 
            CNFProblem problem;
            for (auto& c : cs) { Cl cl; for (int l : c) cl.push_back(Lit(abs(l) - 1, l < 0)); problem.readClause(cl); }
            try { DRATChecker checker(problem); v = checker.check_proof(path.c_str()) ? "accept" : "reject"; }
            catch (ParserException& e) { v = "error"; }
            drv::emit(drv::ks("e", "verdict") + "," + drv::ks("v", v));
            unlink(path.c_str());
        }
    }
}
int main(int argc, char** argv) { return drv::main_(argc, argv, run); }
