// Runs the real Solver with an observing wrapper around its branching heuristic (a template parameter) and writes one event per
// decision and per conflict.
//   script: opt -x=y | kind (vsids lrb vsidsc rsil van bud) SIZE | eq l.. 0 l.. 0 | bb l.. | events N | skip N (conflicts) | cnf l.. 0 .. | assume l.. 0 | phase l.. | solve
#include <algorithm>
#include <set>
#include "drv.h"
#include "candy/core/Solver.h"
#include "candy/systems/branching/LRB.h"
#include "candy/systems/branching/rsil/BranchingHeuristics.h"
#include "candy/frontend/CLIOptions.h"
#include "candy/utils/Options.h"
using namespace Candy;
using drv::emit; using drv::ki; using drv::kv; using drv::ks; using drv::kb; using drv::jl; using drv::jll;
typedef std::vector<int> VI;
static int ex(Lit l) { return l == lit_Undef ? 0 : l.sign() ? -(l.var() + 1) : l.var() + 1; }
static Lit in(int l) { return Lit(abs(l) - 1, l < 0); }
struct Script { std::vector<VI> eq; VI bb; bool preset = false; long limit = 300, events = 0, skip = 0; } script;

// activities, where the heuristic shows them
template <class B> auto act(B& b, int) -> decltype((b.activity)) { return b.activity; }
template <class B> auto act(B& b, long) -> decltype((b.defaultBranchingHeuristic.activity)) { return b.defaultBranchingHeuristic.activity; }
// learning rates of LRB
template <class B> auto rates(B& b, int) -> decltype((b.weight)) { return b.weight; }
static std::vector<double> none;
template <class B> std::vector<double>& rates(B& b, long) { return none; }
inline std::vector<double>& act(...) { return none; }
template <class B> std::vector<double>& activities(B& b, char) { return none; }
template <class B> auto activities(B& b, int) -> decltype((act(b, 0))) { return act(b, 0); }
// conjectures
template <class B> auto given(B& b, int) -> decltype((b.conjectures), void()) {
    if (!script.preset) return;
    std::unique_ptr<Conjectures> c(new Conjectures());
    for (VI& e : script.eq) { EquivalenceConjecture q; for (int l : e) q.addLit(in(l)); c->addEquivalence(q); }
    for (int l : script.bb) c->addBackbone(BackboneConjecture(in(l)));
    b.init(std::move(c), !script.bb.empty());
    b.blockInitialization = true;
}
template <class B> void given(B& b, long) { }
template <class B> auto conj(B& b, int) -> decltype((b.conjectures), std::string()) {
    std::vector<VI> eq; VI bb; bool on = b.initializationCompleted;
    if (on && b.conjectures) {
        for (auto& e : b.conjectures->getEquivalences()) { VI c; for (Lit l : e) c.push_back(ex(l)); eq.push_back(c); }
        for (auto& e : b.conjectures->getBackbones()) bb.push_back(ex(e.getLit()));
    }
    return kb("on", on) + "," + kv("eq", jll(eq)) + "," + kv("bb", jl(bb));
}
template <class B> std::string conj(B& b, long) { return kb("on", false) + "," + kv("eq", "[]") + "," + kv("bb", "[]"); }

static BranchingDiversificationInterface* unit = nullptr;
template <class B> struct Obs : B {
    ClauseDatabase& db; Trail& t; bool first = true; double lastinc = 0;
    template <class C> auto quiet(C& b, int) -> decltype((b.polarity), void()) {
        std::vector<double> old = activities(b, 0); VI ph;
        B::process_conflict();
        std::vector<double>& a = activities(b, 0);
        bool rescaled = false;
        lastinc = 0;
        for (size_t v = 0; v < old.size(); v++) { if (a[v] < old[v]) rescaled = true; lastinc = std::max(lastinc, a[v] - old[v]); }
        if (rescaled) lastinc = 0;
        for (char p : b.polarity) ph.push_back(p ? -1 : 1);
        emit(ks("e", "resume") + "," + ki("n", db.result.nConflicts) + "," + kv("ph", jl(ph)));
    }
    template <class C> void quiet(C& b, long) { B::process_conflict(); }
    Obs(ClauseDatabase& db_, Trail& t_) : B(db_, t_), db(db_), t(t_) { }
    void init(const CNFProblem& p) {
        if (first) { first = false; given(static_cast<B&>(*this), 0); }
        B::init(p);
        emit(ks("e", "init") + "," + ki("n", t.nVars()) + "," + conj(static_cast<B&>(*this), 0));
    }
    Lit pickBranchLit() {
        if (skipping()) return B::pickBranchLit();
        VI un, top, lv;
        std::vector<double>& own = activities(static_cast<B&>(*this), 0);
        std::vector<double>& a = own.empty() ? rates(static_cast<B&>(*this), 0) : own;
        double best = -1;
        for (Var v = 0; v < (Var)t.nVars(); v++) if (t.isDecisionVar(v) && t.value(v) == l_Undef) { un.push_back(v + 1); if (!a.empty()) best = std::max(best, a[v]); }
        for (int v : un) if (a.empty() || a[v - 1] == best) top.push_back(v);
        if (t.decisionLevel() > 0) for (unsigned i = t.trail_lim.back(); i < t.size(); i++) lv.push_back(ex(t[i]));
        Lit r = B::pickBranchLit();
        emit(ks("e", "pick") + "," + kv("un", jl(un)) + "," + kv("top", jl(top)) + "," + kv("lv", jl(lv)) + "," + ki("r", ex(r)));
        if (++script.events > script.limit) { fflush(drv::out()); _exit(0); }
        return r;
    }
    // the first conflicts of a long search are not reported
    bool skipping() { return script.skip > 0; }
    void process_conflict() {
        if (skipping()) {
            if (--script.skip > 0) { B::process_conflict(); return; }
            script.skip = 1;
            quiet(static_cast<B&>(*this), 0);
            script.skip = 0; return;
        }
        auto& r = db.result; VI seg, inv, up, ext; std::set<int> is;
        for (auto it = t.begin(r.backtrack_level); it != t.end(); it++) seg.push_back(ex(*it));
        // extra bump: propagated at the conflict level by a learnt clause of a lower lbd
        for (unsigned i = t.trail_lim.back(); i < t.size(); i++) { Clause* c = t.reason(t[i].var()); if (c && c->isLearnt() && c->getLBD() < r.lbd) ext.push_back(t[i].var() + 1); }
        for (const Clause* c : r.involved_clauses) for (Lit l : *c) is.insert(l.var() + 1);
        inv.assign(is.begin(), is.end());
        std::vector<double> old = activities(static_cast<B&>(*this), 0), w0 = rates(static_cast<B&>(*this), 0);
        VI all; for (auto it = t.begin(0); it != t.end(); it++) all.push_back(it->var() + 1);
        B::process_conflict();
        std::vector<double>& a = activities(static_cast<B&>(*this), 0);
        bool rescaled = a.empty();
        for (size_t v = 0; v < old.size() && v < a.size(); v++) if (a[v] < old[v]) rescaled = true;
        double scale = 1;
        if (rescaled && !a.empty()) {
            // all activities were scaled: by how much shows a variable that was not involved
            int w = -1;
            for (size_t v = 0; v < old.size(); v++) if (!is.count(v + 1) && !std::count(ext.begin(), ext.end(), (int)v + 1) && old[v] > 1e-50 && (w < 0 || old[v] > old[w])) w = v;
            if (w >= 0 && a[w] > 0) { scale = a[w] / old[w]; rescaled = false; for (double& x : old) x *= scale; lastinc *= scale; }
        }
        for (size_t v = 0; v < old.size() && v < a.size(); v++) if (a[v] > old[v] * (scale == 1 ? 1 : 1 + 1e-9)) up.push_back(v + 1);
        // amounts relative to the greatest one (millionth), and that one relative to the conflict before (ten-thousandth, 0: not known)
        VI rel; double inc = 0; long growth = 0;
        if (!rescaled) { for (int v : inv) inc = std::max(inc, a[v - 1] - old[v - 1]); for (int v : inv) rel.push_back((int)((a[v - 1] - old[v - 1]) / inc * 1e6 + .5)); }
        if (inc > 0 && lastinc > 0) growth = (long)(inc / lastinc * 1e4 + .5);
        lastinc = inc;
        std::vector<double>& w = rates(static_cast<B&>(*this), 0); VI r0, r1;
        for (double x : w0) r0.push_back((int)(x * 1e4 + .5));
        for (double x : w) r1.push_back((int)(x * 1e4 + .5));
        emit(ks("e", "conflict") + "," + kb("scaled", scale != 1) + "," + kv("rel", jl(rel)) + "," + ki("growth", growth) + "," + kv("all", jl(w.empty() ? VI() : all)) + "," + kv("r0", jl(r0)) + "," + kv("r1", jl(r1)) + "," + kv("seg", jl(seg)) + "," + kv("inv", jl(inv)) + "," + kv("up", jl(up)) + "," + kb("seen", !rescaled) + "," + kv("ext", jl(ext)));
    }
};

template <class B> void go(const std::vector<std::string>& lines, const std::string& kind, int size) {
    auto* s = new Solver<Propagate, ConflictAnalysis, Obs<B>>();
    CNFProblem prob; std::vector<Lit> as; std::vector<int> ph;
    emit(ks("e", "start") + "," + ks("kind", kind) + "," + ki("size", size) + "," + kb("sort", SolverOptions::opt_sort_variables) + "," + kb("extra", SolverOptions::opt_vsids_extra_bump) +
         "," + kb("equal", kind != "vsidsc" || !SolverOptions::opt_vsidsc_bump) + "," + ki("decay", (long)(SolverOptions::opt_vsids_var_decay * 100 + .5)) + "," + ki("maxdecay", (long)(SolverOptions::opt_vsids_max_var_decay * 100 + .5)) + "," + ki("step", (long)(SolverOptions::opt_lrb_step_size * 1e5 + .5)) + "," + ki("minstep", (long)(SolverOptions::opt_lrb_min_step_size * 1e5 + .5)) + "," + ki("budget", RSILOptions::opt_rsil_impBudgets) + "," + ki("half", RSILOptions::opt_rsil_vanHalfLife));
    for (auto& ln : lines) {
        std::istringstream is(ln); std::string op; is >> op;
        if (op == "cnf") for (VI& c : drv::clauses(is)) { Cl k; for (int l : c) k.push_back(in(l)); prob.readClause(k); }
        else if (op == "assume") { for (int l : drv::ints(is)) if (l) { as.push_back(in(l)); while ((int)prob.nVars() < abs(l)) prob.newVar(); } }
        else if (op == "phase") ph = drv::ints(is);
        else if (op == "solve") {
            s->init(prob);
            VI set;
            for (int l : ph) if (l && abs(l) <= (int)s->nVars()) { s->getBranchingUnit()->setPolarity(Var(abs(l) - 1), l < 0); set.push_back(l); }
            emit(ks("e", "phase") + "," + kv("ls", jl(set)));
            s->getAssignment().setAssumptions(as);
            lbool r = s->solve();
            emit(ks("e", "answer") + "," + ki("r", r == l_True ? 10 : r == l_False ? 20 : 0));
            prob.clear(); as.clear(); ph.clear();
        }
    }
}
static void run(const std::vector<std::string>& lines) {
    std::vector<std::string> opts = { "drv" }; std::string k = "vsids"; int size = 3;
    for (auto& ln : lines) {
        std::istringstream is(ln); std::string op; is >> op;
        if (op == "opt") { std::string o; is >> o; opts.push_back(o); }
        if (op == "kind") is >> k >> size;
        if (op == "events") is >> script.limit;
        if (op == "skip") is >> script.skip;
        if (op == "eq") { script.eq = drv::clauses(is); script.preset = true; }
        if (op == "bb") { script.bb = drv::ints(is); script.preset = true; }
    }
    std::vector<char*> av; for (auto& o : opts) av.push_back(&o[0]);
    int ac = av.size(); av.push_back(nullptr);
    if (ac > 1) parseOptions(ac, av.data(), true);
    if (k == "vsids") go<VSIDS>(lines, k, size); else if (k == "lrb") go<LRB>(lines, k, size); else if (k == "vsidsc") go<VSIDSC>(lines, k, size);
    else if (k == "rsil") { if (size == 3) go<RSILBranchingHeuristic3>(lines, k, size); else go<RSILBranchingHeuristic2>(lines, k, size); }
    else if (k == "van") { if (size == 3) go<RSILVanishingBranchingHeuristic3>(lines, k, size); else go<RSILVanishingBranchingHeuristic2>(lines, k, size); }
    else { if (size == 3) go<RSILBudgetBranchingHeuristic3>(lines, k, size); else go<RSILBudgetBranchingHeuristic2>(lines, k, size); }
}
int main(int argc, char** argv) { return drv::main_(argc, argv, run); }
