-------------------------------- MODULE Gates -------------------------------
(* Gate recognition.  The formula is a sequence of clauses; a result assigns   *)
(* every clause (by position) to the roots, to the definition of one gate      *)
(* (forward or backward), or to the remainder.                                 *)
(* The machine below is the recognition procedure with every choice (order of  *)
(* candidates, choice of roots) left open; Sound says what its result means.   *)
EXTENDS Cnf
VARIABLES clauses,   \* sequence of clauses
          roots,     \* set of positions
          gates,     \* variable -> [out, fwd, bwd, mono]; out is a literal
          index      \* positions not assigned yet
gvars == <<clauses, roots, gates, index>>

C(S) == {clauses[i] : i \in S}
With(S, x) == {i \in S : x \in clauses[i]}
Resolvable(a, b, x) == \A y \in a \ {x} : -y \notin (b \ {-x})      \* the resolvent of a and b on x is no tautology
Blocks(fwd, bwd, o) == \A i \in fwd, j \in bwd : ~Resolvable(clauses[i], clauses[j], -o)
Inputs(g) == UNION {clauses[i] \ {-g.out} : i \in g.fwd}
Stripped(S, o) == {clauses[i] \ {o, -o} : i \in S}
RightUnique(fwd, bwd, o) == ~Sat(Stripped(fwd \cup bwd, o))
GateVars == DOMAIN gates
\* literals which the roots and the gates other than that of v use as input
UsedBy(g) == IF g.mono THEN Inputs(g) ELSE Inputs(g) \cup Neg(Inputs(g))
Used(v) == UNION (C(roots) \cup {UsedBy(gates[w]) : w \in GateVars \ {v}})
MonoIn(o, U) == ~(o \in U /\ -o \in U)

\* candidates for outputs: literals of the roots and inputs of gates
Candidates(v) == UNION (C(roots) \cup {Inputs(gates[w]) : w \in GateVars \ {v}})

\* --- the procedure -----------------------------------------------------------
UnitRoots == /\ roots = {} /\ GateVars = {}
             /\ LET U == {i \in index : Cardinality(clauses[i]) = 1} IN
                U # {} /\ roots' = U /\ index' = index \ U
             /\ UNCHANGED <<clauses, gates>>
\* all clauses with x that are not blocked on x
MoreRoots(x) == LET U == {i \in With(index, x) : \E j \in With(index, -x) : Resolvable(clauses[i], clauses[j], x)} IN
                /\ U # {} /\ roots' = roots \cup U /\ index' = index \ U
                /\ UNCHANGED <<clauses, gates>>
Recognize(o) == LET fwd == With(index, -o)
                    bwd == With(index, o)
                    mono == MonoIn(o, Used(Abs(o)))
                IN /\ o \in Candidates(Abs(o)) /\ fwd # {} /\ Abs(o) \notin GateVars /\ Blocks(fwd, bwd, o)
                   /\ (mono \/ RightUnique(fwd, bwd, o)) = TRUE
                   /\ gates' = (Abs(o) :> [out |-> o, fwd |-> fwd, bwd |-> bwd, mono |-> mono]) @@ gates
                   /\ index' = index \ (fwd \cup bwd)
                   /\ UNCHANGED <<clauses, roots>>

\* --- what a result has to satisfy --------------------------------------------
Parts == {roots, index} \cup {gates[v].fwd : v \in GateVars} \cup {gates[v].bwd : v \in GateVars}
Partition == /\ UNION Parts = 1..Len(clauses)
             /\ Cardinality(roots) + Cardinality(index) + FoldSet(LAMBDA v, n : n + Cardinality(gates[v].fwd) + Cardinality(gates[v].bwd), 0, GateVars) = Len(clauses)
Polarity == \A v \in GateVars : LET g == gates[v] IN Abs(g.out) = v /\ g.fwd # {} /\ (\A i \in g.fwd : -g.out \in clauses[i]) /\ (\A i \in g.bwd : g.out \in clauses[i])
\* gate clauses that mention other gates, in the order of recognition
Uses(v) == {w \in GateVars \ {v} : \E i \in gates[v].fwd \cup gates[v].bwd : w \in VarsOfClause(clauses[i])}
RECURSIVE Acyclic(_)
Acyclic(S) == S = {} \/ LET top == {v \in S : \A w \in S : v \notin Uses(w)} IN top # {} /\ Acyclic(S \ top)
NoGateInRest == \A i \in index : VarsOfClause(clauses[i]) \cap GateVars = {}
BlockedOk == \A v \in GateVars : Blocks(gates[v].fwd, gates[v].bwd, gates[v].out)
MonoOk == \A v \in GateVars : gates[v].mono = MonoIn(gates[v].out, Used(v))
\* a gate that is used in both polarities is a function of its inputs
FunctionOk == \A v \in GateVars : ~gates[v].mono => RightUnique(gates[v].fwd, gates[v].bwd, gates[v].out)
\* ... or, with the holistic method, is one in the context of the formula
FunctionInContext == \A v \in GateVars : ~gates[v].mono => ~Sat(NoTaut(C(1..Len(clauses))) \cup Stripped(gates[v].fwd \cup gates[v].bwd, gates[v].out))
\* the other direction of monotonically used gates is redundant
Lean == C(roots \cup index \cup UNION {gates[v].fwd : v \in GateVars} \cup UNION {gates[v].bwd : v \in {w \in GateVars : ~gates[w].mono}})
LeanOk == Sat(Lean) = Sat(C(1..Len(clauses)))
Reached == \A v \in GateVars : gates[v].out \in Candidates(v)
Structure == Reached /\ Partition /\ Polarity /\ Acyclic(GateVars) /\ NoGateInRest /\ BlockedOk /\ MonoOk
=============================================================================
