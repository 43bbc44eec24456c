// Reads files with the real DIMACS reader and writes what came out.
//   begin NAME / file PATH / end
#include "drv.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/SolverTypes.h"
#include "candy/utils/Exceptions.h"
using namespace Candy;

static void report(const char* ev, CNFProblem& p) {
    std::vector<std::vector<int>> cs;
    for (Cl* c : p) { std::vector<int> v; for (Lit l : *c) v.push_back((l.var() + 1) * (l.sign() ? -1 : 1)); cs.push_back(v); }
    drv::emit(drv::ks("e", ev) + "," + drv::kb("ok", true) + "," + drv::kv("cs", drv::jll(cs)) + "," + drv::ki("nv", p.nVars()) + "," + drv::ki("nc", p.nClauses()));
}

static void run(const std::vector<std::string>& lines) {
    for (auto& ln : lines) {
        std::istringstream is(ln); std::string op, path; is >> op >> path;
        CNFProblem problem;
        try {
            if (op == "file") problem.readDimacsFromFile(path.c_str());
            else { int fd = open(path.c_str(), O_RDONLY); dup2(fd, 0); problem.readDimacsFromStdin(); }
        }
        catch (ParserException& e) { drv::emit(drv::ks("e", "read") + "," + drv::kb("ok", false) + ",\"cs\":[],\"nv\":0,\"nc\":0"); continue; }
        report("read", problem);
        // what is printed must be readable again and mean the same
        std::string tmp = path + ".print"; int fd = open(tmp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); int keep = dup(1); fflush(stdout); std::cout.flush();
        dup2(fd, 1); problem.printDIMACS(); fflush(stdout); std::cout.flush(); dup2(keep, 1); close(fd);
        CNFProblem again;
        try { again.readDimacsFromFile(tmp.c_str()); report("reread", again); }
        catch (ParserException& e) { drv::emit(drv::ks("e", "reread") + "," + drv::kb("ok", false) + ",\"cs\":[],\"nv\":0,\"nc\":0"); }
        unlink(tmp.c_str());
    }
}
int main(int argc, char** argv) { return drv::main_(argc, argv, run); }
