----------------------------- MODULE TraceGates -----------------------------
(* Results of the real gate analyzer against Gates.                            *)
EXTENDS Gates, Json, IOUtils
CONSTANTS CheckStructure, CheckPrune, EnumVars
VARIABLES l
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<gvars, l>>
Ev == TraceLog[l]
Want(flag, p) == (flag => p) = TRUE
Rng(s) == {s[i] : i \in 1..Len(s)}
NoDups(s) == Cardinality(Rng(s)) = Len(s)
TraceInit == l = 1 /\ clauses = <<>> /\ roots = {} /\ gates = <<>> /\ index = {}
Begin == Ev.e = "begin" /\ clauses' = <<>> /\ roots' = {} /\ gates' = <<>> /\ index' = {}
DoCnf == /\ Ev.e = "cnf" /\ clauses' = [i \in 1..Len(Ev.cs) |-> ToClause(Ev.cs[i])]
         /\ roots' = {} /\ gates' = <<>> /\ index' = 1..Len(Ev.cs)
GateOf(g) == [out |-> g.out, fwd |-> Rng(g.fwd), bwd |-> Rng(g.bwd), mono |-> g.mono]
\* the empty clause has no literal and is not indexed
EmptyPos == {i \in 1..Len(clauses) : clauses[i] = {}}
Loaded == /\ roots' = Rng(Ev.roots)
          /\ index' = Rng(Ev.rest) \cup EmptyPos
          /\ gates' = [v \in {Abs(Ev.gates[i].out) : i \in 1..Len(Ev.gates)} |-> GateOf(Ev.gates[CHOOSE i \in 1..Len(Ev.gates) : Abs(Ev.gates[i].out) = v])]
          /\ UNCHANGED clauses
DoAnalyze == /\ Ev.e = "analyze" /\ Loaded
             /\ Want(CheckStructure,
                 /\ NoDups(Ev.roots) /\ NoDups(Ev.rest)
                 /\ \A i \in 1..Len(Ev.gates) : NoDups(Ev.gates[i].fwd) /\ NoDups(Ev.gates[i].bwd) /\ Rng(Ev.gates[i].inp) = Inputs(GateOf(Ev.gates[i]))
                 /\ Ev.ng = Len(Ev.gates) /\ Ev.nm = Cardinality({i \in 1..Len(Ev.gates) : Ev.gates[i].mono}) /\ Ev.nr = Len(Ev.roots))
\* a separate step, in which the loaded result is the current state
DoCheck == /\ Ev.e = "check"
           /\ Want(CheckStructure,
                 /\ Structure
                 /\ (IF Ev.method \in {2, 11} THEN FunctionInContext ELSE FunctionOk)
                 /\ LeanOk
                 /\ {i \in 1..Len(clauses) : Cardinality(clauses[i]) = 1} \subseteq roots
                 /\ Rng(Ev.expect) \subseteq DOMAIN gates)
           /\ UNCHANGED gvars
\* Whoever keeps enough of the model M to satisfy the pruned clauses, keeps the formula satisfied, except that values of
\* gate outputs may have to be changed.  (An assignment which satisfies pruned clauses by literals outside of M need not.)
PruneOk == LET P == C(Rng(Ev.ids))
               V == VarsOf(C(1..Len(clauses)))
               G == GateVars
           IN /\ 0 \notin Rng(Ev.ids)
              /\ Satisfies(ToClause(Ev.m), C(1..Len(clauses)))
              /\ Cardinality(V) <= EnumVars => \A a \in Valuations(V) : (\A c \in P : c \cap a \cap ToClause(Ev.m) # {}) => SatUnder(C(1..Len(clauses)), {x \in a : Abs(x) \notin G})
DoPrune == Ev.e = "prune" /\ Want(CheckPrune, PruneOk) /\ UNCHANGED gvars
\* all roots and the remainder become one gate under a fresh root
DoNormalize == /\ Ev.e = "normalize"
               /\ LET top == C(roots \cup index) IN
                  Want(CheckStructure,
                    /\ Ev.out = Ev.root /\ Ev.root \notin VarsOf(C(1..Len(clauses)))
                    /\ ToFormula(Ev.fwd) = {c \cup {-Ev.root} : c \in top \ {{}}}
                    /\ Len(Ev.fwd) = Cardinality((roots \cup index) \ EmptyPos)
                    /\ Rng(Ev.inp) = UNION top
                    /\ ToFormula(Ev.roots) = {{Ev.root}} /\ Ev.rest = 0 /\ Ev.ng = Cardinality(GateVars) + 1 /\ Ev.art)
               /\ UNCHANGED gvars
TraceNext == /\ l <= Len(TraceLog) /\ l' = l + 1
             /\ \/ Begin \/ DoCnf \/ DoAnalyze \/ DoCheck \/ DoPrune \/ DoNormalize
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
            /\ TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
