// The problem store and its fingerprints.
//   begin NAME / read CLAUSES / new / normalize / check LITS / print / hash / md5 BYTES (chunks end with -1) / end
#include "drv.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/CandySolverResult.h"
#include "candy/core/SolverTypes.h"
#include "candy/gbd/hash.h"
#include "candy/gbd/md5/md5.h"
using namespace Candy;
static int ext(Lit l) { return (l.var() + 1) * (l.sign() ? -1 : 1); }
static Lit lit(int l) { return Lit(abs(l) - 1, l < 0); }
static std::string shown(const CNFProblem& p) {
    std::vector<std::vector<int>> v;
    for (Cl* c : p) { v.emplace_back(); for (Lit l : *c) v.back().push_back(ext(l)); }
    return drv::kv("cs", drv::jll(v)) + "," + drv::ki("n", p.nVars());
}
static void run(const std::vector<std::string>& lines) {
    CNFProblem problem;
    for (auto& ln : lines) {
        std::istringstream is(ln); std::string op; is >> op;
        if (op == "read") {
            auto cs = drv::clauses(is); For f;
            for (auto& c : cs) { Cl* cl = new Cl(); for (int l : c) cl->push_back(lit(l)); f.push_back(cl); }
            problem.readClauses(f);
            for (Cl* c : f) delete c;
            drv::emit(drv::ks("e", "read") + "," + drv::kv("given", drv::jll(cs)) + "," + shown(problem));
        }
        else if (op == "new") { int v = problem.newVar(); drv::emit(drv::ks("e", "new") + "," + drv::ki("v", v)); }
        else if (op == "normalize") { problem.normalizeVariableNames(); drv::emit(drv::ks("e", "normalize") + "," + shown(problem)); }
        else if (op == "check") {
            auto m = drv::ints(is); CandySolverResult res; for (int l : m) res.setModelValue(lit(l));
            bool ok = problem.checkResult(res);
            drv::emit(drv::ks("e", "check") + "," + drv::kv("m", drv::jl(m)) + "," + drv::kb("ok", ok));
        }
        else if (op == "print") {
            char name[] = "/tmp/candyprobXXXXXX"; int fd = mkstemp(name), old = dup(1);
            std::cout.flush(); fflush(stdout); dup2(fd, 1);
            problem.printDIMACS();
            std::cout.flush(); fflush(stdout); dup2(old, 1); close(old);
            lseek(fd, 0, SEEK_SET); std::vector<int> t; unsigned char ch; while (read(fd, &ch, 1) == 1) t.push_back(ch);
            close(fd); unlink(name);
            drv::emit(drv::ks("e", "print") + "," + drv::kv("text", drv::jl(t)));
        }
        else if (op == "hash") {
            Hash h(problem); std::string g = h.gbd_hash(), d = h.degree_hash();
            drv::emit(drv::ks("e", "hash") + "," + drv::ks("gbd", g) + "," + drv::ks("degree", d));
        }
        else if (op == "md5") {
            std::vector<std::vector<int>> cs(1); for (int x : drv::ints(is)) if (x < 0) cs.emplace_back(); else cs.back().push_back(x);
            cs.pop_back();
            md5::md5_t m; for (auto& c : cs) { std::string s(c.begin(), c.end()); m.process(s.data(), s.size()); }
            unsigned char sig[MD5_SIZE]; char str[MD5_STRING_SIZE]; m.finish(sig); md5::sig_to_string(sig, str, sizeof(str));
            drv::emit(drv::ks("e", "md5") + "," + drv::kv("chunks", drv::jll(cs)) + "," + drv::ks("digest", str));
        }
    }
}
int main(int argc, char** argv) { return drv::main_(argc, argv, run); }
