// What is derived from recognized circuits.
//   begin NAME / cnf CLAUSES / analyze METHOD TRIES / walk / idc LIMITS 0 CLASSES (0-terminated) / bb LITS / remove STEPS / miter / end
//   begin NAME / nvars N / class LITS / bb LITS / advice SIZE / budget B / filter ONLYBB VARS / end
#define CANDY_EXPOSE_TESTING_INTERFACE
#include "drv.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/SolverTypes.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/gates/GateDFSTraversal.h"
#include "candy/gates/MiterDetector.h"
#include "candy/randomsimulation/Conjectures.h"
#include "candy/rsar/ApproximationState.h"
#include "candy/rsar/Heuristics.h"
#include "candy/systems/branching/rsil/ImplicitLearningAdvice.h"
#include "candy/systems/branching/rsil/RSARHeuristicsFilter.h"
#include <set>
using namespace Candy;
static int ext(Lit l) { return (l.var() + 1) * (l.sign() ? -1 : 1); }
static Lit lit(int l) { return Lit(abs(l) - 1, l < 0); }
static std::vector<int> ext(const Cl& c) { std::vector<int> v; for (Lit l : c) v.push_back(ext(l)); return v; }
template <bool Prune> struct Walk {
    std::vector<int> first, back, inputs; bool seen = false, over = false;
    void init(size_t) {}
    void collect(const Gate* g) { first.push_back(g->out.var() + 1); }
    void backtrack(const Gate* g) { back.push_back(g->out.var() + 1); }
    void collectInput(Var v) { inputs.push_back(v + 1); }
    bool pruneAt(const Gate& g) { return Prune && g.hasNonMonotonicParent(); }
    void finished() { over = true; }
};
template <bool P> static void walk(GateProblem& g) {
    auto w = traverseDFS<Walk<P>>(g);
    drv::emit(drv::ks("e", "walk") + "," + drv::kb("prune", P) + "," + drv::kv("first", drv::jl(w.first)) + "," + drv::kv("back", drv::jl(w.back)) + "," + drv::kv("inputs", drv::jl(w.inputs)) + "," + drv::kb("over", w.over));
}
struct Only : public RefinementHeuristic {
    std::set<int> vs; bool bb;
    Only(const std::vector<int>& v) : vs(v.begin(), v.end()) {}
    void beginRefinementStep() override {}
    void markRemovals(EquivalenceImplications&) override {}
    void markRemovals(Backbones&) override {}
    bool probe(Var v, bool) override { return vs.count(v + 1); }
};
static std::string pairs(const std::vector<Implication>& is) { std::vector<std::vector<int>> r; for (auto& i : is) r.push_back({ext(i.first), ext(i.second)}); return drv::jll(r); }
struct Ctx { int n = 0; Conjectures conj; std::vector<std::vector<int>> classes; std::vector<int> bbs; };
template <class E> static std::string entries(ImplicitLearningAdvice<E>& a) {
    std::string s = "["; bool f = true;
    for (Var v = 0; a.hasPotentialAdvice(v); v++) { auto& e = a.getAdvice(v); std::vector<int> ls; for (unsigned i = 0; i < e.getSize(); i++) ls.push_back(ext(e.getLiteral(i)));
        s += std::string(f ? "" : ",") + "{" + drv::kv("ls", drv::jl(ls)) + "," + drv::kb("bb", e.getSize() && e.isBackbone()) + "}"; f = false; }
    return s + "]";
}
template <class E> static std::string budgets(ImplicitLearningAdvice<E>&, bool) { return "[]"; }
template <unsigned N> static std::string budgets(ImplicitLearningAdvice<BudgetAdviceEntry<N>>& a, bool set) {
    std::vector<std::vector<int>> r;
    for (Var v = 0; a.hasPotentialAdvice(v); v++) { auto& e = a.getAdvice(v); r.emplace_back();
        for (unsigned i = 0; i < e.getSize(); i++) { if (set) e.setBudget(i, abs(ext(e.getLiteral(i))) + 100); r.back().push_back(e.getBudget(i)); } }
    return drv::jll(r);
}
template <class E> static void advice(Ctx& c, int size, bool budget, const std::vector<std::pair<bool, std::vector<int>>>& filters) {
    ImplicitLearningAdvice<E> a; a.init(c.conj, c.n);
    std::string b = budgets(a, true);
    drv::emit(drv::ks("e", "advice") + "," + drv::ki("size", size) + "," + drv::ki("n", c.n) + "," + drv::kv("classes", drv::jll(c.classes)) + "," + drv::kv("bbs", drv::jl(c.bbs)) + "," + drv::kv("entries", entries(a)) + "," + drv::kb("budget", budget) + "," + drv::kv("bud", b));
    for (auto& f : filters) {
        Only o(f.second); Only never({}); filterWithRSARHeuristics(std::vector<RefinementHeuristic*>{&never, &o}, a, f.first);
        drv::emit(drv::ks("e", "filter") + "," + drv::kb("only", f.first) + "," + drv::kv("vars", drv::jl(f.second)) + "," + drv::kv("entries", entries(a)) + "," + drv::kb("budget", budget) + "," + drv::kv("bud", budgets(a, false)));
    }
}
static void run(const std::vector<std::string>& lines) {
    CNFProblem problem; GateAnalyzer* an = nullptr; Ctx c; std::vector<std::pair<bool, std::vector<int>>> filters; std::vector<size_t> limits; int steps = 0;
    for (auto& ln : lines) {
        std::istringstream is(ln); std::string op; is >> op;
        if (op == "cnf") {
            std::vector<std::vector<int>> cs;
            for (auto& x : drv::clauses(is)) { Cl cl; for (int l : x) cl.push_back(lit(l)); problem.readClause(cl); }
            for (Cl* x : problem) cs.push_back(ext(*x));
            drv::emit(drv::ks("e", "cnf") + "," + drv::kv("cs", drv::jll(cs)));
        }
        else if (op == "analyze") {
            int m, t; is >> m >> t; an = new GateAnalyzer(problem, (GateRecognitionMethod)m, t, 0); an->analyze();
            GateProblem& g = an->getResult(); std::string gs = "["; bool f = true; std::vector<std::vector<int>> rt; for (Cl* x : g.roots) rt.push_back(ext(*x));
            for (const Gate& x : g) if (x.isDefined()) { std::vector<std::vector<int>> fw; for (Cl* y : x.fwd) fw.push_back(ext(*y));
                gs += std::string(f ? "" : ",") + "{" + drv::ki("out", ext(x.out)) + "," + drv::kv("inp", drv::jl(ext(x.inp))) + "," + drv::kv("fwd", drv::jll(fw)) + "," + drv::kb("mono", !x.hasNonMonotonicParent()) + "}"; f = false; }
            drv::emit(drv::ks("e", "gates") + "," + drv::kv("gates", gs + "]") + "," + drv::kv("roots", drv::jll(rt)));
        }
        else if (op == "walk") {
            walk<false>(an->getGateProblem()); walk<true>(an->getGateProblem());
            auto t = getTopoOrder(an->getGateProblem()); std::vector<int> o; for (Var v : t.getOutputsOrdered()) o.push_back(v + 1);
            drv::emit(drv::ks("e", "topo") + "," + drv::kv("order", drv::jl(o)));
        }
        else if (op == "miter") drv::emit(drv::ks("e", "miter") + "," + drv::kb("yes", hasPossiblyMiterStructure(*an)));
        else if (op == "nvars") is >> c.n;
        else if (op == "class") { auto v = drv::ints(is); EquivalenceConjecture e; for (int l : v) e.addLit(lit(l)); c.conj.addEquivalence(e); c.classes.push_back(v); }
        else if (op == "bb") { for (int l : drv::ints(is)) { c.conj.addBackbone(BackboneConjecture(lit(l))); c.bbs.push_back(l); } }
        else if (op == "idc") {
            is >> steps; std::vector<int> lim = drv::ints(is); for (int x : lim) limits.push_back(x);
            auto hp = createInputDepCountRefinementHeuristic(*an, limits), hr = createInputDepCountRefinementHeuristic(*an, limits);
            auto bb = test_createBackbones(c.conj.getBackbones()); std::vector<std::unique_ptr<EquivalenceImplications>> eq;
            for (auto& e : c.conj.getEquivalences()) eq.push_back(test_createEquivalenceImplications(e));
            drv::emit(drv::ks("e", "idc") + "," + drv::kv("limits", drv::jl(lim)) + "," + drv::kv("classes", drv::jll(c.classes)) + "," + drv::kv("bbs", drv::jl(c.bbs)));
            for (int k = 1; k <= steps; k++) {
                std::vector<int> p, gone, left; hp->beginRefinementStep(); hr->beginRefinementStep();
                for (Var v = 0; v < (Var)problem.nVars(); v++) if (hp->probe(v, k % 2)) p.push_back(v + 1);
                hr->markRemovals(*bb); for (Lit l : test_commitWorkQueue(*bb).removedBackbones) gone.push_back(ext(l)); for (Lit l : *bb) left.push_back(ext(l));
                std::vector<std::vector<int>> cl;
                for (auto& e : eq) { hr->markRemovals(*e); test_commitWorkQueue(*e); std::vector<int> x; for (Implication i : *e) x.push_back(ext(i.first)); cl.push_back(x); }
                drv::emit(drv::ks("e", "step") + "," + drv::ki("k", k) + "," + drv::kv("probe", drv::jl(p)) + "," + drv::kv("gone", drv::jl(gone)) + "," + drv::kv("left", drv::jl(left)) + "," + drv::kv("classes", drv::jll(cl)));
            }
        }
        else if (op == "filter") { int b; is >> b; filters.emplace_back(b, drv::ints(is)); }
        else if (op == "advice") {
            int size, budget; is >> size >> budget;
            if (budget) { if (size == 2) advice<BudgetAdviceEntry<2>>(c, size, true, filters); else if (size == 3) advice<BudgetAdviceEntry<3>>(c, size, true, filters); else advice<BudgetAdviceEntry<6>>(c, 6, true, filters); }
            else { if (size == 2) advice<AdviceEntry<2>>(c, size, false, filters); else if (size == 3) advice<AdviceEntry<3>>(c, size, false, filters); else advice<AdviceEntry<6>>(c, 6, false, filters); }
        }
    }
}
int main(int argc, char** argv) { return drv::main_(argc, argv, run); }
