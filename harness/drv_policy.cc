// Drives the restart and reduction policies, the containers they are made of, and the factory of solvers.
//   script: opt -x=y | restart | c LBD TRAIL | skip K | t          restart policy: conflict, further conflicts, question
//           reduce | a LBD l.. | conf K | r | q                    reduction: create clause, conflicts, reduce, question
//           heap N | h OP ..                                       priority queue (w V K: weight; i d u V: insert, changed; m: minimum; b ..: build; x: clear)
//           queue N | p X | f                                      bounded queue
//           build S L C R A                                        factory
#include <cxxabi.h>
#include <algorithm>
#include <cmath>
#include "drv.h"
#include "candy/core/Solver.h"
#include "candy/systems/Restart.h"
#include "candy/systems/ReduceDB.h"
#include "candy/systems/branching/LRB.h"
#include "candy/systems/branching/rsil/BranchingHeuristics.h"
#include "candy/frontend/CandyBuilder.h"
#include "candy/frontend/CLIOptions.h"
#include "candy/mtl/Heap.h"
#include "candy/mtl/BoundedQueue.h"
#include "candy/utils/Options.h"
using namespace Candy;
using drv::emit; using drv::ki; using drv::kv; using drv::ks; using drv::kb; using drv::jl; using drv::jll;
typedef std::vector<int> VI;
struct Lt { std::vector<int>& w; bool operator()(int a, int b) const { return w[a] < w[b]; } };
static std::string component(BranchingDiversificationInterface* b) {
    if (dynamic_cast<VSIDSC*>(b)) return "vsidsc";
    if (dynamic_cast<LRB*>(b)) return "lrb";
    if (dynamic_cast<RSILBudgetBranchingHeuristic3*>(b)) return "implicationbudgeted3";
    if (dynamic_cast<RSILBudgetBranchingHeuristic2*>(b)) return "implicationbudgeted2";
    if (dynamic_cast<RSILVanishingBranchingHeuristic3*>(b)) return "vanishing3";
    if (dynamic_cast<RSILVanishingBranchingHeuristic2*>(b)) return "vanishing2";
    if (dynamic_cast<RSILBranchingHeuristic3*>(b)) return "unrestricted3";
    if (dynamic_cast<RSILBranchingHeuristic2*>(b)) return "unrestricted2";
    if (dynamic_cast<VSIDS*>(b)) return "vsids";
    return "?";
}
static void run(const std::vector<std::string>& lines) {
    std::vector<std::string> opts = { "drv" };
    for (auto& ln : lines) { std::istringstream is(ln); std::string op, o; is >> op; if (op == "opt") { is >> o; opts.push_back(o); } }
    std::vector<char*> av; for (auto& o : opts) av.push_back(&o[0]);
    int ac = av.size(); av.push_back(nullptr);
    if (ac > 1) parseOptions(ac, av.data(), true);
    ClauseDatabase db; Trail trail(4000);
    Restart* rs = nullptr; ReduceDB* rd = nullptr; Glucose::Heap<Lt>* heap = nullptr; bqueue<uint32_t>* q = nullptr; std::vector<int> w;
    auto live = [&]() { std::vector<VI> m; for (Clause* c : db) if (!c->isDeleted()) { VI v { (int)c->getLBD() }; for (Lit l : *c) v.push_back(l.sign() ? -(l.var() + 1) : l.var() + 1); m.push_back(v); } return m; };
    for (auto& ln : lines) {
        std::istringstream is(ln); std::string op; is >> op; int a = 0, b = 0;
        if (op == "restart") { rs = new Restart(db, trail); emit(ks("e", "restart") + "," + ki("n", SolverOptions::opt_size_lbd_queue) + "," + ki("m", SolverOptions::opt_size_trail_queue) + "," + ki("k100", lround(SolverOptions::opt_K * 100)) + "," + ki("r100", lround(SolverOptions::opt_R * 100))); }
        else if (op == "c") { is >> a >> b; db.result.nConflicts++; db.result.lbd = a; trail.trail_size = b; rs->process_conflict(); emit(ks("e", "conflict") + "," + ki("lbd", a) + "," + ki("size", b)); }
        else if (op == "skip") { is >> a; db.result.nConflicts += a; emit(ks("e", "skip") + "," + ki("k", a)); }
        else if (op == "t") { unsigned n = rs->nRestarts(); bool r = rs->trigger_restart(); emit(ks("e", "trigger") + "," + kb("r", r) + "," + ki("more", rs->nRestarts() - n)); }
        else if (op == "reduce") { CNFProblem prob; for (int i = 0; i < 100; i++) prob.newVar(); db.init(prob, nullptr, true); trail.trail_size = 0; rd = new ReduceDB(db, trail); emit(ks("e", "reduce") + "," + ki("keep", ClauseDatabaseOptions::opt_persistent_lbd) + "," + kb("median", ClauseDatabaseOptions::opt_keep_median_lbd) + "," +
                                   ki("first", ClauseDatabaseOptions::opt_first_reduce_db) + "," + ki("inc", ClauseDatabaseOptions::opt_inc_reduce_db)); }
        else if (op == "a") { is >> a; std::vector<Lit> c; for (int l : drv::ints(is)) c.push_back(Lit(abs(l) - 1, l < 0)); db.createClause(c.begin(), c.end(), a); }
        else if (op == "conf") { is >> a; db.result.nConflicts += a; emit(ks("e", "skip") + "," + ki("k", a)); }
        else if (op == "r") { auto old = live(); rd->reduce(); emit(ks("e", "reduced") + "," + kv("old", jll(old)) + "," + kv("new", jll(live())) + "," + ki("calls", rd->nReduceCalls())); }
        else if (op == "q") emit(ks("e", "due") + "," + kb("r", rd->trigger_reduce()));
        else if (op == "heap") { is >> a; w.assign(a, 0); heap = new Glucose::Heap<Lt>(Lt { w }); heap->grow(a); emit(ks("e", "heap") + "," + ki("n", a)); }
        else if (op == "h") {
            std::string o; is >> o; int r = -1; VI ns;
            if (o == "w") { is >> a >> b; int old = w[a]; w[a] = b; if (heap->inHeap(a)) { if (b < old) heap->decrease(a); else if (b > old) heap->increase(a); } }
            else if (o == "i") { is >> a; if (!heap->inHeap(a)) heap->insert(a); }
            else if (o == "u") { is >> a >> b; w[a] = b; heap->update(a); }
            else if (o == "m") { if (!heap->empty()) r = heap->removeMin(); }
            else if (o == "b") { ns = drv::ints(is); heap->build(ns); }
            else if (o == "x") heap->clear();
            std::vector<int> el; for (size_t i = 0; i < w.size(); i++) if (heap->inHeap(i)) el.push_back(i);
            emit(ks("e", "h") + "," + ks("o", o) + "," + ki("a", a) + "," + ki("b", b) + "," + kv("ns", jl(ns)) + "," + ki("r", r) + "," + kv("el", jl(el)) + "," + ki("size", heap->size()) + "," + kb("none", heap->empty()));
        }
        else if (op == "queue") { is >> a; q = new bqueue<uint32_t>(a); emit(ks("e", "queue") + "," + ki("n", a)); }
        else if (op == "p" || op == "f") {
            if (op == "p") { is >> a; q->push(a); } else q->fastclear();
            emit(ks("e", op.c_str()) + "," + ki("x", a) + "," + ki("sum", q->getsum()) + "," + ki("size", q->size()) + "," + kb("full", q->isvalid()) + "," + ki("avg", q->size() ? q->getavg() : 0));
        }
        else if (op == "build") {
            int s, l, c, r, z; is >> s >> l >> c >> r >> z; std::string mode { RSILOptions::opt_rsil_mode };
            CandySolverInterface* solver = createSolver(s, l, c, r, z);
            std::string t = typeid(*solver).name();
            emit(ks("e", "build") + "," + kb("static", s) + "," + kb("lrb", l) + "," + kb("vsidsc", c) + "," + kb("rsil", r) + "," + ki("size", z) + "," + ks("mode", mode) + "," +
                 kb("gotstatic", t.find("StaticPropagate") != std::string::npos) + "," + ks("got", component(solver->getBranchingUnit())));
        }
    }
}
int main(int argc, char** argv) { return drv::main_(argc, argv, run); }
