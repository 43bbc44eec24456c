// Incremental-interface driver.  Executes op scripts against the real solver and writes one ndjson
// event per completed public call.  No solver internals are consulted: everything logged is what a
// caller of the interface can see.
//   usage: drv_inc SCRIPTS OUT       (each script is run in its own child process)
// script lines:
//   begin NAME                      starts a history
//   opt -name=value                 command line option (applied before the solver is made)
//   api ipasir | api iface S L V R A   (static-propagate, lrb, vsidsc, rsil, advice size)
//   add l1 .. ln 0 | cnf l.. 0 l.. 0 .. | assume l | solve | learn N | term K | noterm | limit SECONDS
//   wit l1 .. ln 0                  valuation attached to the following solve events (witness)
//   full 0|1                        marks solve events whose satisfiability the oracle decides itself
//   nolearn | noterm0               callbacks are removed by passing NULL
//   twin                            a second solver, which exports every learnt clause, is used in the same way
//   use K                           continues with solver K (0..); solvers are used side by side, each one's
//                                   events form a history of its own
//   end
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>

#include "candy/core/CNFProblem.h"
#include "candy/core/SolverTypes.h"
#include "candy/core/Trail.h"
#include "candy/core/CandySolverInterface.h"
#include "candy/core/CandySolverResult.h"
#include "candy/frontend/CandyBuilder.h"
#include "candy/frontend/CLIOptions.h"
#include "candy/utils/Options.h"
extern "C" {
#include "candy/ipasir/ipasir.h"
}
using namespace Candy;

struct Cfg { bool ipasir = true; bool s = 0, l = 0, v = 0, r = 0; unsigned a = 3; };

static FILE* file;          // the recorded events
static FILE* out;           // where the current solver's events go
static std::string jl(const std::vector<int>& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
struct Inst;
static Inst* cur; static long foreign = 0;      // calls of a callback with another state than the one registered with it
static void on_learn(void* st, int* c);
static int on_term(void* st);

// one adapter per interface so both are driven by the same scripts
struct Api {
    Cfg cfg; void* h = nullptr; CandySolverInterface* s = nullptr; CNFProblem prob; std::vector<int> cl; std::vector<Lit> as;
    std::set<int> vars;
    void make() { if (cfg.ipasir) h = ipasir_init(); else s = createSolver(cfg.s, cfg.l, cfg.v, cfg.r, cfg.a); }
    static Lit imp(int l) { return Lit(abs(l) - 1, l < 0); }
    void add(const std::vector<int>& c) {
        for (int l : c) vars.insert(abs(l));
        if (h) { for (int l : c) ipasir_add(h, l); ipasir_add(h, 0); }
        else { Cl k; for (int l : c) k.push_back(imp(l)); prob.readClause(k); }
    }
    void assume(int l) { vars.insert(abs(l)); if (h) ipasir_assume(h, l); else { as.push_back(imp(l)); while ((int)prob.nVars() < abs(l)) prob.newVar(); } }
    int solve() {
        if (h) return ipasir_solve(h);
        s->init(prob); s->getAssignment().setAssumptions(as);
        lbool r = s->solve(); as.clear(); prob.clear();
        return r == l_True ? 10 : r == l_False ? 20 : 0;
    }
    // the interface's value of literal l: l (true), -l (false), 0 (none)
    int val(int l) {
        if (h) return ipasir_val(h, l);
        CandySolverResult& r = s->getCandySolverResult();
        return r.satisfies(imp(l)) ? l : r.satisfies(imp(-l)) ? -l : 0;
    }
    int failed(int l) {
        if (h) return ipasir_failed(h, l);
        for (Lit x : s->getCandySolverResult().getConflict()) if (x.var() == abs(l) - 1) return 1;
        return 0;
    }
    void learn(int n, void* st) { auto f = st ? on_learn : nullptr; if (h) ipasir_set_learn(h, st, n, f); else s->setLearntCallback(st, n, f); }
    void term(void* st) { auto f = st ? on_term : nullptr; if (h) ipasir_set_terminate(h, st, f); else s->setTermCallback(st, f); }
    long conflicts() { return s ? (long)s->nConflicts() : -1; }   // -1 and -1: difference 0 for ipasir, which does not report it
    void release() { if (h) ipasir_release(h); else delete s; }
};

// one solver with what its user remembers
struct Inst {
    Api api, twin; bool twinned = false; char twstate = 0; std::vector<std::vector<int>> all; bool made = false; std::vector<int> assumed; std::set<int> seen; int learn_n = 0; std::vector<int> witness; int full = 1; std::string prooffile;
    std::vector<std::vector<int>> learnt; long term_budget = -1, term_calls = 0; char lstate = 0, tstate = 0;
    char* buf = nullptr; size_t len = 0; FILE* own = nullptr;
    void op(const std::string& ln);
    void release();
};
static void on_learn(void* st, int* c) {
    std::vector<int> v; while (*c) v.push_back(*c++);
    if (cur->twinned && st == &cur->twstate) { cur->all.push_back(v); return; }
    if (st != &cur->lstate) foreign++;
    cur->learnt.push_back(v);
}
static int on_term(void* st) { if (st != &cur->tstate) foreign++; cur->term_calls++; return cur->term_budget >= 0 && cur->term_calls > cur->term_budget; }

void Inst::op(const std::string& ln) {
    do {
        std::istringstream is(ln); std::string op; is >> op;
        if (op == "opt") {
            std::string o; is >> o; std::string prog = "x"; std::vector<char> a(o.begin(), o.end()); a.push_back(0); char p[] = "x";
            char* argv[] = { p, a.data(), nullptr }; int argc = 2; parseOptions(argc, argv, true); return;
        }
        if (op == "proof") {
            // single-shot certificate: written to a scratch file, emitted as events after the solver is released
            is >> prooffile; std::string o = "-certified-output=" + prooffile; std::vector<char> a(o.begin(), o.end()); a.push_back(0); char p[] = "x";
            char* argv[] = { p, a.data(), nullptr }; int argc = 2; parseOptions(argc, argv, true); return;
        }
        if (op == "api") {
            std::string k; is >> k; api.cfg.ipasir = (k == "ipasir");
            if (!api.cfg.ipasir) is >> api.cfg.s >> api.cfg.l >> api.cfg.v >> api.cfg.r >> api.cfg.a;
            return;
        }
        if (!made) { api.make(); made = true; }
        if (op == "twin") { twinned = true; twin.cfg = api.cfg; twin.make(); twin.learn(1000000, &twstate); return; }
        if (op == "add") {
            std::vector<int> c; int l; while (is >> l && l) c.push_back(l);
            fprintf(out, "{\"e\":\"add\",\"c\":%s}\n", jl(c).c_str()); fflush(out);
            for (int l : c) seen.insert(abs(l));
            api.add(c); if (twinned) twin.add(c);
        } else if (op == "assume") {
            int l; is >> l; fprintf(out, "{\"e\":\"assume\",\"l\":%d}\n", l); fflush(out);
            assumed.push_back(l); seen.insert(abs(l)); api.assume(l); if (twinned) twin.assume(l);
        } else if (op == "learn") { is >> learn_n; api.learn(learn_n, &lstate);
            fprintf(out, "{\"e\":\"setlearn\",\"n\":%d}\n", learn_n); fflush(out);
        } else if (op == "term") { is >> term_budget; term_calls = 0; api.term(&tstate);
            fprintf(out, "{\"e\":\"setterm\",\"n\":%ld}\n", term_budget); fflush(out);
        } else if (op == "noterm") { term_budget = -1; api.term(&tstate);
            fprintf(out, "{\"e\":\"setterm\",\"n\":-1}\n"); fflush(out);
        } else if (op == "noterm0") { term_budget = -1; api.term(nullptr);
            fprintf(out, "{\"e\":\"setterm\",\"n\":-1}\n"); fflush(out);
        } else if (op == "nolearn") { learn_n = 0; api.learn(0, nullptr);
            fprintf(out, "{\"e\":\"setlearn\",\"n\":0}\n"); fflush(out);
        } else if (op == "cnf") {
            // many clauses at once, logged as one event
            std::string j = "{\"e\":\"adds\",\"cs\":["; std::vector<int> c; int l; bool first = true; std::vector<std::vector<int>> cs;
            while (is >> l) { if (l) c.push_back(l); else { j += (first ? "" : ",") + jl(c); first = false; cs.push_back(c); c.clear(); } }
            fputs((j + "]}\n").c_str(), out); fflush(out);
            for (auto& k : cs) { for (int l : k) seen.insert(abs(l)); api.add(k); if (twinned) twin.add(k); }
        } else if (op == "wit") { int l; witness.clear(); while (is >> l && l) witness.push_back(l);
        } else if (op == "full") { is >> full;
        } else if (op == "solve") {
            learnt.clear(); term_calls = 0; foreign = 0;
            fprintf(out, "{\"e\":\"call\"}\n"); fflush(out);
            long nc0 = api.conflicts();
            int r = api.solve();
            long nc = api.conflicts() - nc0;
            all.clear(); if (twinned) twin.solve();
            std::string s = "{\"e\":\"solve\",\"r\":" + std::to_string(r);
            std::vector<int> m, f; bool consistent = true;
            if (r == 10) for (int v : seen) {
                int a = api.val(v), b = api.val(-v);
                if (a == v && b == v) m.push_back(v);
                else if (a == -v && b == -v) m.push_back(-v);
                else if (!(a == 0 && b == 0)) consistent = false;   // the two polarities contradict each other
            }
            if (r == 20) for (int l : assumed) if (api.failed(l)) f.push_back(l);
            s += ",\"m\":" + jl(m) + ",\"f\":" + jl(f) + ",\"cons\":" + (consistent ? "true" : "false") + ",\"foreign\":" + std::to_string(foreign) + ",\"tc\":" + std::to_string(term_calls > 1000000 ? 1000000 : term_calls);
            s += ",\"ln\":[";
            for (size_t i = 0; i < learnt.size(); i++) s += (i ? "," : "") + jl(learnt[i]);
            s += "],\"twin\":" + std::string(twinned ? "true" : "false") + ",\"all\":[";
            for (size_t i = 0; i < all.size(); i++) s += (i ? "," : "") + jl(all[i]);
            s += "],\"nc\":" + std::to_string(nc) + ",\"w\":" + jl(witness) + ",\"full\":" + (full ? "true" : "false") + "}\n";
            fputs(s.c_str(), out); fflush(out);
            assumed.clear();
        }
    } while (false);
}
void Inst::release() {
    if (made) api.release();
    if (twinned) twin.release();
    if (!prooffile.empty()) {
        std::ifstream pf(prooffile); std::string ln; bool junk = false;
        while (std::getline(pf, ln)) {
            std::istringstream is(ln); std::string tok; std::vector<int> c; bool del = false, zero = false, any = false;
            while (is >> tok) {
                if (!any && tok == "d") { del = true; any = true; continue; }
                any = true; char* e; long v = strtol(tok.c_str(), &e, 10);
                if (*e || zero) { junk = true; break; }
                if (v == 0) zero = true; else c.push_back((int)v);
            }
            if (!any) continue;
            if (!zero) junk = true;
            if (junk) break;
            fprintf(out, "{\"e\":\"%s\",\"c\":%s}\n", del ? "del" : "lemma", jl(c).c_str());
        }
        pf.close(); unlink(prooffile.c_str());
        fprintf(out, "{\"e\":\"endproof\",\"junk\":%s}\n", junk ? "true" : "false");
    }
    fprintf(out, "{\"e\":\"released\"}\n"); fflush(out);
}
static void run(const std::string& name, const std::vector<std::string>& lines) {
    std::vector<Inst*> all(1, new Inst()); out = file; cur = all[0];
    for (auto& ln : lines) {
        if (ln.compare(0, 4, "use ") == 0) {
            size_t k = atoi(ln.c_str() + 4);
            while (all.size() <= k) { all.push_back(new Inst()); Inst* i = all.back(); i->api.cfg = all[0]->api.cfg; i->own = open_memstream(&i->buf, &i->len); }
            cur = all[k]; out = cur->own ? cur->own : file; continue;
        }
        cur->op(ln);
    }
    for (Inst* i : all) { cur = i; out = i->own ? i->own : file; i->release(); if (i->own) fflush(i->own); }
    for (size_t k = 1; k < all.size(); k++) { fprintf(file, "{\"e\":\"next\",\"id\":\"%s.%zu\"}\n%s", name.c_str(), k, all[k]->buf); }
    fflush(file);
}

int main(int argc, char** argv) {
    std::ifstream in(argv[1]); file = fopen(argv[2], "w");
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
    std::string ln; std::vector<std::string> script; std::string name; int limit = 60, hung = 0;
    while (std::getline(in, ln)) {
        std::istringstream is(ln); std::string op; is >> op;
        if (op == "begin") { is >> name; script.clear(); limit = 60; continue; }
        if (op == "limit") { is >> limit; continue; }
        if (op != "end") { script.push_back(ln); continue; }
        fprintf(file, "{\"e\":\"begin\",\"id\":\"%s\"}\n", name.c_str()); fflush(file);
        pid_t p = fork();
        if (p == 0) {
            struct rlimit rl = { (rlim_t)limit, (rlim_t)limit + 1 }; setrlimit(RLIMIT_CPU, &rl);
            struct rlimit as = { 2560ull << 20, 2560ull << 20 };
            if (!getenv("VERIF_SAN")) setrlimit(RLIMIT_AS, &as);
            struct rlimit co = { 0, 0 }; setrlimit(RLIMIT_CORE, &co);
            run(name, script); fflush(file); _exit(0);
        }
        int st = 0; waitpid(p, &st, 0);
        fseek(file, 0, SEEK_END);
        if (WIFSIGNALED(st)) fprintf(file, "{\"e\":\"crash\",\"sig\":%d}\n", WTERMSIG(st));
        else if (WEXITSTATUS(st) != 0) fprintf(file, "{\"e\":\"crash\",\"sig\":%d}\n", 1000 + WEXITSTATUS(st));
        fflush(file);
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL) && ++hung == 2) break;
    }
    fclose(file);
    return 0;
}
