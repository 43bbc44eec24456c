------------------------------- MODULE Ipasir -------------------------------
(* The incremental solver interface as its user sees it.                      *)
(*   clauses      every clause added so far                                   *)
(*   assumptions  literals assumed since the last solve                       *)
(*   st           "input" | "sat" | "unsat" | "unknown"                       *)
(*   model        valuation reported by the last solve (st = "sat")           *)
(*   core         assumptions reported as failed (st = "unsat")               *)
(*   solved       assumptions the last solve was run under                    *)
(*   maxlen       learn callback: 0 = none, otherwise maximal length           *)
(*   budget       terminate callback: -1 = never asks to stop, otherwise the   *)
(*                number of polls after which it asks to stop                  *)
(*   exported     clauses handed to the learn callback during the last solve  *)
EXTENDS Cnf

CONSTANTS CheckAnswers,   \* decide the answers and the models
          CheckCore,      \* decide the failed assumptions
          CheckLearn,     \* decide the exported clauses
          CheckTerm       \* decide the interruption behaviour

VARIABLES clauses, assumptions, st, model, core, solved, maxlen, budget, exported
ivars == <<clauses, assumptions, st, model, core, solved, maxlen, budget, exported>>

IpasirInit ==
    /\ clauses = {} /\ assumptions = {} /\ st = "input" /\ model = {} /\ core = {}
    /\ solved = {} /\ maxlen = 0 /\ budget = -1 /\ exported = {}

Input == st' = "input" /\ model' = {} /\ core' = {} /\ solved' = {} /\ exported' = {}

Add(c) ==
    /\ clauses' = clauses \cup {c}
    /\ Input /\ UNCHANGED <<assumptions, maxlen, budget>>

AddAll(F) ==
    /\ clauses' = clauses \cup F
    /\ Input /\ UNCHANGED <<assumptions, maxlen, budget>>

Assume(l) ==
    /\ assumptions' = assumptions \cup {l}
    /\ Input /\ UNCHANGED <<clauses, maxlen, budget>>

SetLearn(n) == maxlen' = n /\ UNCHANGED <<clauses, assumptions, st, model, core, solved, budget, exported>>
SetTerm(n)  == budget' = n /\ UNCHANGED <<clauses, assumptions, st, model, core, solved, maxlen, exported>>

\* ---- what a solve may answer ----
\* w: a valuation known from elsewhere (a witness); it can only refute a wrong UNSAT
AnswerOk(r, m, w) ==
    CASE r = 10 -> Consistent(m) /\ Satisfies(m, clauses) /\ assumptions \subseteq m
      [] r = 20 -> ~(w # {} /\ Satisfies(w, clauses) /\ assumptions \subseteq w)
      [] OTHER  -> r = 0
UnsatOk == ~SatUnder(clauses, assumptions)
CoreOk(f) == f \subseteq assumptions /\ ~SatUnder(clauses, f)
\* "unknown" is only allowed when the callback did ask to stop
TermOk(r, polls) == r = 0 => (budget >= 0 /\ polls > budget)
LearnOk(E) == /\ maxlen = 0 => E = {}
              /\ \A c \in E : Cardinality(c) <= maxlen /\ VarsOfClause(c) \subseteq VarsOf(clauses) /\ Implies(clauses, c)

SolveUpd(r, m, f, E) ==
    /\ st' = (CASE r = 10 -> "sat" [] r = 20 -> "unsat" [] OTHER -> "unknown")
    /\ model' = (IF r = 10 THEN m ELSE {})
    /\ core' = (IF r = 20 THEN f ELSE {})
    /\ solved' = assumptions
    /\ assumptions' = {}
    /\ exported' = E
    /\ UNCHANGED <<clauses, maxlen, budget>>

\* full: the oracle can afford to decide satisfiability itself
Solve(r, m, f, E, polls, w, full) ==
    /\ CheckAnswers => (AnswerOk(r, m, w) /\ (r = 20 /\ full => UnsatOk))
    /\ (CheckCore /\ r = 20 /\ full) => CoreOk(f)
    /\ CheckTerm => TermOk(r, polls)
    /\ CheckLearn => LearnOk(E)
    /\ SolveUpd(r, m, f, E)

=============================================================================
