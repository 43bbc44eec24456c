// Random simulation: gate order and propagation, partitions and conjectures, the simulator as a whole.
//   begin NAME / cnf CLAUSES / analyze METHOD TRIES / order rec|nonrec FILTER / simulate ROUNDS (whole simulator) /
//   partition null|lin1|lin2|lin3|log VARS.. / update VAR BASE POSITIONS.. 0 (repeated) / conjectures / filter SIZE BB / end
// In simulation vectors a set bit means that the variable is false.
#include "drv.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/SolverTypes.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/randomsimulation/ClauseOrder.h"
#include "candy/randomsimulation/Conjectures.h"
#include "candy/randomsimulation/Partition.h"
#include "candy/randomsimulation/Propagation.h"
#include "candy/randomsimulation/RandomSimulator.h"
#include "candy/randomsimulation/SimulationVector.h"
#include <map>
using namespace Candy;
static int ext(Lit l) { return (l.var() + 1) * (l.sign() ? -1 : 1); }
static Lit lit(int l) { return Lit(abs(l) - 1, l < 0); }
static std::vector<int> ext(const Cl& c) { std::vector<int> v; for (Lit l : c) v.push_back(ext(l)); return v; }
static std::string conj(const Conjectures& c) {
    std::vector<std::vector<int>> eq; std::vector<int> bb;
    for (auto& e : c.getEquivalences()) { std::vector<int> v; for (Lit l : e) v.push_back(ext(l)); eq.push_back(v); }
    for (auto& b : c.getBackbones()) bb.push_back(ext(b.getLit()));
    return drv::kv("eq", drv::jll(eq)) + "," + drv::kv("bb", drv::jl(bb));
}
static void run(const std::vector<std::string>& lines) {
    CNFProblem problem; GateAnalyzer* an = nullptr; std::unique_ptr<Partition> part; SimulationVectors* pv = nullptr; std::unique_ptr<Conjectures> last;
    const unsigned B = SimulationVector::VARSIMVECVARS;
    for (auto& ln : lines) {
        std::istringstream is(ln); std::string op; is >> op;
        if (op == "cnf") {
            for (auto& c : drv::clauses(is)) { Cl cl; for (int l : c) cl.push_back(lit(l)); problem.readClause(cl); }
            drv::emit(drv::ks("e", "cnf") + "," + drv::ki("n", problem.nVars()));
        }
        else if (op == "analyze") {
            int m, t; is >> m >> t; an = new GateAnalyzer(problem, (GateRecognitionMethod)m, t, 0); an->analyze();
            std::string gs = "["; bool f = true;
            for (const Gate& x : an->getResult()) if (x.isDefined()) {
                std::vector<std::vector<int>> fw, bw; for (Cl* c : x.fwd) fw.push_back(ext(*c)); for (Cl* c : x.bwd) bw.push_back(ext(*c));
                gs += std::string(f ? "" : ",") + "{" + drv::ki("out", ext(x.out)) + "," + drv::kv("fwd", drv::jll(fw)) + "," + drv::kv("bwd", drv::jll(bw)) + "," + drv::kv("inp", drv::jl(ext(x.inp))) + "," + drv::kb("nested", x.hasNonMonotonicParent()) + "}"; f = false; }
            drv::emit(drv::ks("e", "gates") + "," + drv::kv("gates", gs + "]"));
        }
        else if (op == "order") {
            std::string w; int filter = 0; is >> w >> filter;
            auto o = w == "rec" ? createRecursiveClauseOrder() : createNonrecursiveClauseOrder();
            if (filter) o->setGateFilter(createNonmonotonousGateFilter(*an));
            o->readGates(*an);
            auto& in = o->getInputVariables(); std::vector<int> inv, outs; for (Var v : in) inv.push_back(v + 1); for (Lit l : o->getGateOutputsOrdered()) outs.push_back(ext(l));
            unsigned n = o->getAmountOfVars(); for (unsigned q = 1; q <= n + 1; q++) { char* junk = new char[q * sizeof(SimulationVector) + 64]; memset(junk, 0xA5, q * sizeof(SimulationVector) + 64); asm volatile("" : : "r"(junk) : "memory"); delete[] junk; }
            SimulationVectors sv; sv.initialize(n); std::vector<char> isin(n, 0); bool zero = true;
            for (unsigned v = 0; v < n; v++) for (unsigned w = 0; w < SimulationVector::VARSIMVECSIZE; w++) zero &= sv.get(v).vars[w] == 0;
            if (in.size() > 5) { drv::emit(drv::ks("e", "order") + "," + drv::ki("k", in.size()) + ",\"inputs\":[],\"outs\":[],\"vals\":[],\"filter\":false,\"free\":[],\"n\":0"); continue; }
            unsigned P = 1u << in.size();
            // every combination of input values at several places of the vectors; other variables have some fixed content
            for (unsigned v = 0; v < n; v++) sv.get(v).initialize(0x5555555555555555ull * (v % 2 + 1));
            for (size_t i = 0; i < in.size(); i++) { isin[in[i]] = 1;
                for (unsigned f = 0; f < B; f++) { uint64_t bit = 1ull << (f % 64); bool t = (f % P) >> i & 1; auto& x = sv.get(in[i]).vars[f / 64]; x = t ? x & ~bit : x | bit; } }
            std::vector<std::vector<uint64_t>> before; for (unsigned v = 0; v < n; v++) before.emplace_back(sv.get(v).vars, sv.get(v).vars + SimulationVector::VARSIMVECSIZE);
            createInputToOutputPropagation()->propagate(sv, *o);
            std::vector<char> isout(n, 0); for (Lit l : o->getGateOutputsOrdered()) isout[l.var()] = 1;
            std::vector<int> fr; for (unsigned v = 0; v < n; v++) if (!isin[v] && !isout[v]) fr.push_back(v + 1);
            bool same = true, periodic = true;
            for (unsigned v = 0; v < n; v++) { auto& s = sv.get(v);
                if (!isout[v]) same &= std::equal(before[v].begin(), before[v].end(), s.vars);
                else if (fr.empty()) for (unsigned f = P; f < B; f++) periodic &= (s.vars[f / 64] >> (f % 64) & 1) == (s.vars[(f % P) / 64] >> (f % P % 64) & 1); }
            // two samples of the vectors: the first and the last P patterns (B is a multiple of P)
            std::vector<std::vector<int>> vals;
            for (int part = 0; part < 2; part++) for (unsigned q = 0; q < P; q++) { unsigned f = part ? B - P + q : q; std::vector<int> m;
                for (unsigned v = 0; v < n; v++) m.push_back((sv.get(v).vars[f / 64] >> (f % 64) & 1) ? -(int)(v + 1) : (int)(v + 1)); vals.push_back(m); }
            drv::emit(drv::ks("e", "order") + "," + drv::ki("k", in.size()) + "," + drv::kv("inputs", drv::jl(inv)) + "," + drv::kv("outs", drv::jl(outs)) + "," + drv::kv("vals", drv::jll(vals)) + "," + drv::kb("filter", filter) + "," +
                drv::kv("free", drv::jl(fr)) + "," + drv::ki("n", n) + "," + drv::kb("same", same && periodic) + "," + drv::kb("zero", zero));
        }
        else if (op == "simulate") {
            unsigned rounds; is >> rounds; BitparallelRandomSimulatorBuilder b{*an}; auto s = b.build();
            last.reset(new Conjectures(s->run(rounds)));
            drv::emit(drv::ks("e", "simulate") + "," + conj(*last));
        }
        else if (op == "partition") {
            std::string w; is >> w; auto vs = drv::ints(is); int mx = 0; std::vector<Var> v; for (int x : vs) { v.push_back(x - 1); mx = std::max(mx, x); }
            part = createDefaultPartition(w == "log" ? createLogCompressionScheduleStrategy() : w == "null" ? createNullCompressionScheduleStrategy() : createLinearCompressionScheduleStrategy(w[3] - '0'));
            part->setVariables(v); pv = new SimulationVectors; pv->initialize(mx);
            drv::emit(drv::ks("e", "partition") + "," + drv::kv("vars", drv::jl(vs)));
        }
        else if (op == "update") {
            std::string js = "["; int v, base; bool f = true;
            while (is >> v >> base) { std::vector<int> pos; int p; while (is >> p && p >= 0) pos.push_back(p);
                auto& s = pv->get(v - 1); s.initialize(base ? ~0ull : 0ull); for (int q : pos) s.vars[q / 64] ^= 1ull << (q % 64);
                js += std::string(f ? "" : ",") + "{" + drv::ki("v", v) + "," + drv::ki("base", base) + "," + drv::kv("pos", drv::jl(pos)) + "}"; f = false; }
            part->update(*pv); drv::emit(drv::ks("e", "update") + "," + drv::kv("sig", js + "]"));
        }
        else if (op == "conjectures") { last.reset(new Conjectures(part->getConjectures())); drv::emit(drv::ks("e", "conjectures") + "," + conj(*last) + "," + drv::ki("pairs", countLiteralEquivalences(*last)) + "," + drv::ki("max", last->getMaxVar() + 1)); }
        else if (op == "filter") { int sz, bb; is >> sz >> bb; auto f = bb ? createBackboneRemovalConjectureFilter() : createSizeConjectureFilter(sz);
            drv::emit(drv::ks("e", "filter") + "," + drv::ki("size", sz) + "," + drv::kb("dropbb", bb) + "," + conj(f->apply(*last))); }
    }
}
int main(int argc, char** argv) { return drv::main_(argc, argv, run); }
