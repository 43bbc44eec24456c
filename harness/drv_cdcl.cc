// Runs the real Solver with observing wrappers around its propagation and learning systems (they are template parameters of the
// solver, so no hook in the sources is needed) and writes one event per propagation, learnt clause and database change.
//   script: opt -x=y | asymm | type P B (P: 0 watched, 1 static; B: vsids lrb vsidsc) | cnf l.. 0 .. | assume l.. 0 | solve | end
#include <map>
#include <set>
#include <algorithm>
#include "drv.h"
#include "candy/core/Solver.h"
#include "candy/systems/propagate/StaticPropagate.h"
#include "candy/systems/branching/LRB.h"
#include "candy/utils/Options.h"
using namespace Candy;
using drv::emit; using drv::ki; using drv::kv; using drv::ks; using drv::kb; using drv::jl; using drv::jll;

typedef std::vector<int> VI;
static int ex(Lit l) { return l.sign() ? -(l.var() + 1) : l.var() + 1; }
template <class C> static VI lits(const C& c) { VI v; for (Lit l : c) v.push_back(ex(l)); return v; }
static VI norm(VI v) { std::sort(v.begin(), v.end()); return v; }

struct Obs {
    ClauseDatabase* db = nullptr; Trail* trail = nullptr;
    std::set<VI> shadow;                            // what the specification knows of the database
    struct Ent { int l; unsigned v; }; std::vector<Ent> last;
    bool attached = false, sync = false; long events = 0, limit = 1000000;
    std::set<VI> current() { std::set<VI> m; for (Clause* c : *db) if (!c->isDeleted()) m.insert(norm(lits(*c))); return m; }
    // clauses which may be dropped at any time
    std::vector<VI> redundant() {
        std::set<VI> keep, drop; for (Clause* c : *db) if (!c->isDeleted()) (c->isLearnt() && c->size() > 1 ? drop : keep).insert(norm(lits(*c)));
        std::vector<VI> r; for (auto& c : drop) if (!keep.count(c)) r.push_back(c); return r;
    }
    void checkDb() {
        std::set<VI> m = current(); std::vector<VI> add, del;
        for (auto& c : m) if (!shadow.count(c)) add.push_back(c);
        for (auto& c : shadow) if (!m.count(c)) del.push_back(c);
        if (!add.empty() || !del.empty()) { attached = sync = false; emit(ks("e", "db") + "," + kv("add", jll(add)) + "," + kv("del", jll(del)) + "," + kv("lrn", jll(redundant()))); }
        shadow.swap(m);
    }
    void trailEvent(const char* name, const std::string& more) {
        std::vector<Ent> cur; size_t n = trail->size();
        for (size_t i = 0; i < n; i++) cur.push_back({ ex((*trail)[i]), trail->level((*trail)[i].var()) });
        size_t keep = 0; while (keep < last.size() && keep < n && last[keep].l == cur[keep].l && last[keep].v == cur[keep].v) keep++;
        std::string ents = "[";
        for (size_t i = keep; i < n; i++) {
            Clause* r = trail->reason((*trail)[i].var());
            ents += std::string(i > keep ? "," : "") + "{" + ki("l", cur[i].l) + "," + ki("v", cur[i].v) + "," + kv("r", r ? jl(lits(*r)) : "[]") + "}";
        }
        emit(ks("e", name) + "," + ki("keep", keep) + "," + kv("ents", ents + "]") + "," + ki("lv", trail->decisionLevel()) + more);
        last.swap(cur);
        if (++events > limit) { fflush(drv::out()); _exit(0); }
    }
};
static Obs obs;

template <class P> struct ObsProp : P {
    ObsProp(ClauseDatabase& db, Trail& t) : P(db, t) { obs.db = &db; obs.trail = &t; }
    void reset() { obs.checkDb(); P::reset(); obs.attached = true; }
    void init() { P::init(); }
    auto propagate() -> decltype(std::declval<P&>().propagate()) {
        obs.checkDb();
        // complete propagation is expected once all clauses are attached and the whole trail has been visited since
        if (obs.attached && obs.trail->qhead == 0) obs.sync = true;
        obs.trailEvent("before", "," + kb("asymm", VariableEliminationOptions::opt_use_asymm));
        auto c = P::propagate();
        obs.trailEvent("prop", "," + kb("sync", obs.sync) + "," + kb("confl", c != nullptr) + "," + kv("c", c ? jl(lits(*c)) : "[]"));
        return c;
    }
};
struct ObsLearn : ConflictAnalysis {
    ObsLearn(ClauseDatabase& db, Trail& t) : ConflictAnalysis(db, t) { }
    void handle_conflict(Clause* confl) {
        VI k = lits(*confl);
        ConflictAnalysis::handle_conflict(confl);
        auto& r = obs.db->result; VI c = lits(r.learnt_clause);
        emit(ks("e", "learn") + "," + kv("k", jl(k)) + "," + kv("c", jl(c)) + "," + ki("bt", r.backtrack_level) + "," + ki("lbd", r.lbd));
        obs.shadow.insert(norm(c));
    }
    std::vector<Lit> analyzeFinal(Lit p) {
        std::vector<Lit> r = ConflictAnalysis::analyzeFinal(p);
        emit(ks("e", "final") + "," + ki("p", ex(p)) + "," + kv("core", jl(lits(r))));
        return r;
    }
};

static int stop(void* p) { return 0; }

template <class P, class B> void go(const std::vector<std::string>& lines) {
    Solver<ObsProp<P>, ObsLearn, B>* s = new Solver<ObsProp<P>, ObsLearn, B>();
    CNFProblem prob; std::vector<Lit> as; std::vector<VI> fresh; VI asv; int nv = 0;
    for (auto& ln : lines) {
        std::istringstream is(ln); std::string op; is >> op;
        if (op == "cnf") for (VI& c : drv::clauses(is)) { Cl k; for (int l : c) k.push_back(Lit(abs(l) - 1, l < 0)); prob.readClause(k); fresh.push_back(c); }
        else if (op == "asymm") { }
        else if (op == "events") is >> obs.limit;
        else if (op == "assume") { for (int l : drv::ints(is)) if (l) { as.push_back(Lit(abs(l) - 1, l < 0)); asv.push_back(l); while ((int)prob.nVars() < abs(l)) prob.newVar(); } }
        else if (op == "solve") {
            s->init(prob);
            obs.shadow = obs.current(); obs.attached = obs.sync = false; obs.last.clear(); obs.events = 0;
            std::vector<VI> now; now.assign(obs.shadow.begin(), obs.shadow.end());
            nv = std::max(nv, (int)s->nVars());
            emit(ks("e", "start") + "," + kv("cs", jll(fresh)) + "," + kv("db", jll(now)) + "," + kv("as", jl(asv)) + "," + ki("n", nv));
            s->getAssignment().setAssumptions(as);
            lbool r = s->solve();
            VI m; if (r == l_True) for (int v = 0; v < nv; v++) m.push_back(s->getCandySolverResult().satisfies(Lit(v)) ? v + 1 : -(v + 1));
            emit(ks("e", "result") + "," + ki("r", r == l_True ? 10 : r == l_False ? 20 : 0) + "," + kv("m", jl(m)));
            prob.clear(); fresh.clear(); as.clear(); asv.clear();
        }
    }
}

static void run(const std::vector<std::string>& lines) {
    std::vector<std::string> opts = { "drv" }; int p = 0; std::string b = "vsids"; 
    for (auto& ln : lines) {
        std::istringstream is(ln); std::string op; is >> op;
        if (op == "opt") { std::string o; is >> o; opts.push_back(o); }
        if (op == "type") is >> p >> b;
        if (op == "asymm") VariableEliminationOptions::opt_use_asymm = true;     // there is no option for it
    }
    std::vector<char*> av; for (auto& o : opts) av.push_back(&o[0]);
    int ac = av.size(); av.push_back(nullptr);
    if (ac > 1) parseOptions(ac, av.data(), true);
    if (p == 0) { if (b == "lrb") go<Propagate, LRB>(lines); else if (b == "vsidsc") go<Propagate, VSIDSC>(lines); else go<Propagate, VSIDS>(lines); }
    else { if (b == "lrb") go<StaticPropagate, LRB>(lines); else if (b == "vsidsc") go<StaticPropagate, VSIDSC>(lines); else go<StaticPropagate, VSIDS>(lines); }
}
int main(int argc, char** argv) { return drv::main_(argc, argv, run); }
