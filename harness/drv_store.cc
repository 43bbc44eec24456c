// Drives the clause database directly.
//   begin NAME / cert PATH / init CLAUSES / create LBD LEMMA LITS / long FROM TO LBD LEMMA / remove K / strengthen K J / reorg / list / end
// K selects the K-th (mod n) live clause of the last listing or creation order, J the J-th literal.
#include "drv.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/clauses/ClauseDatabase.h"
#include "candy/core/SolverTypes.h"
#include "candy/frontend/CLIOptions.h"
#include <algorithm>
using namespace Candy;

static int ext(Lit l) { return (l.var() + 1) * (l.sign() ? -1 : 1); }
static Lit lit(int l) { return Lit(abs(l) - 1, l < 0); }
// a set of literals as maximal intervals [a,b], ascending
static std::string runs(std::vector<int> v) {
    std::sort(v.begin(), v.end());
    std::string s = "["; 
    for (size_t i = 0; i < v.size();) {
        size_t j = i; while (j + 1 < v.size() && v[j + 1] == v[j] + 1) j++;
        s += (i ? ",[" : "[") + std::to_string(v[i]) + "," + std::to_string(v[j]) + "]"; i = j + 1;
    }
    return s + "]";
}
static std::string enc(const Clause* c) { std::vector<int> v; for (Lit l : *c) v.push_back(ext(l)); return runs(v); }
static std::string entry(const Clause* c) { return "[" + enc(c) + "," + std::to_string(c->getLBD()) + "]"; }

static void run(const std::vector<std::string>& lines) {
    std::string cert; 
    for (auto& ln : lines) { std::istringstream is(ln); std::string op; is >> op; if (op == "cert") is >> cert; }
    SolverOptions::opt_certified_file = cert.c_str();
    {
    ClauseDatabase db; std::vector<Clause*> live; 
    auto listing = [&]() {
        std::string all = "[", un = "[", bins = "["; bool f = true;
        for (Clause* c : db) if (!c->isDeleted()) { all += (f ? "" : ",") + entry(c); f = false; }
        f = true; for (Clause* c : db.getUnitClauses()) if (!c->isDeleted()) { un += (f ? "" : ",") + std::to_string(ext(c->first())); f = false; }
        f = true; for (unsigned i = 0; i < 2 * db.nVars(); i++) { Lit l = Lit(i / 2, i % 2); for (auto w : db.getBinaryWatchers(l)) {
            bins += std::string(f ? "" : ",") + "[" + std::to_string(ext(l)) + "," + std::to_string(ext(w.other)) + "," + enc(w.clause) + "]"; f = false; } }
        return drv::kv("all", all + "]") + "," + drv::kv("units", un + "]") + "," + drv::kv("bins", bins + "]") + "," + drv::kb("empty", db.hasEmptyClause());
    };
    for (auto& ln : lines) {
        std::istringstream is(ln); std::string op; is >> op;
        if (op == "init") {
            auto cs = drv::clauses(is); CNFProblem p; std::string s = "[";
            for (auto& c : cs) { Cl cl; for (int l : c) cl.push_back(lit(l)); p.readClause(cl); }
            db.init(p);
            live.clear(); for (Clause* c : db) { s += (live.empty() ? "" : ",") + entry(c); live.push_back(c); }
            std::string given = "[";
            for (size_t i = 0; i < cs.size(); i++) given += (i ? "," : "") + runs(cs[i]);
            drv::emit(drv::ks("e", "init") + "," + drv::kv("cs", given + "]") + "," + drv::kv("all", s + "]") + "," + drv::ki("nv", db.nVars()));
        }
        else if (op == "create" || op == "long") {
            std::vector<int> v; int lbd, lemma;
            if (op == "long") { int a, b; is >> a >> b >> lbd >> lemma; for (int x = a; x <= b; x++) v.push_back(x); }
            else { is >> lbd >> lemma; v = drv::ints(is); }
            std::vector<Lit> c; for (int l : v) c.push_back(lit(l));
            Clause* p = db.createClause(c.begin(), c.end(), lbd, lemma != 0);
            live.push_back(p);
            drv::emit(drv::ks("e", "create") + "," + drv::kv("c", runs(v)) + "," + drv::ki("n", v.size()) + "," + drv::ki("lbd", lbd) + "," + drv::kb("lemma", lemma) + "," + drv::kv("got", entry(p)));
        }
        else if (op == "remove" && !live.empty()) {
            unsigned k; is >> k; k %= live.size(); Clause* p = live[k]; live.erase(live.begin() + k);
            std::string s = entry(p); db.removeClause(p);
            drv::emit(drv::ks("e", "remove") + "," + drv::kv("x", s) + "," + drv::kb("dead", p->isDeleted()));
        }
        else if (op == "strengthen" && !live.empty()) {
            unsigned k, j; is >> k >> j; k %= live.size(); Clause* p = live[k]; if (p->size() < 2) continue;
            live.erase(live.begin() + k); Lit l = (*p)[j % p->size()]; std::string s = entry(p);
            Clause* q = db.strengthenClause(p, l); live.push_back(q);
            drv::emit(drv::ks("e", "strengthen") + "," + drv::kv("x", s) + "," + drv::ki("n", p->size()) + "," + drv::ki("l", ext(l)) + "," + drv::kv("got", entry(q)) + "," + drv::kb("dead", p->isDeleted()));
        }
        else if (op == "reorg") { db.reorganize(); live.clear(); for (Clause* c : db) live.push_back(c); drv::emit(drv::ks("e", "reorg") + "," + listing()); }
        else if (op == "list") drv::emit(drv::ks("e", "list") + "," + listing());
    }
    }
    if (!cert.empty()) {
        std::ifstream in(cert); std::string ln, out = "["; bool f = true;
        while (std::getline(in, ln)) {
            std::istringstream is(ln); bool del = ln[0] == 'd'; if (del) is.get(); auto v = drv::ints(is); bool ok = !v.empty() && v.back() == 0; if (ok) v.pop_back();
            out += std::string(f ? "" : ",") + "[\"" + (ok ? del ? "d" : "a" : "?") + "\"," + runs(v) + "]"; f = false;
        }
        drv::emit(drv::ks("e", "cert") + "," + drv::kv("lines", out + "]")); unlink(cert.c_str());
    }
}
int main(int argc, char** argv) { return drv::main_(argc, argv, run); }
