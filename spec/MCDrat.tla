------------------------------- MODULE MCDrat -------------------------------
(* Every proof over a small alphabet: a refutation exists only for            *)
(* unsatisfiable formulas, and every line preserves satisfiability.           *)
EXTENDS Drat
CONSTANTS V, MaxInit, MaxDb
VARIABLES orig
Lits == V \cup Neg(V)
Alphabet == {c \in SUBSET Lits : Cardinality(c) <= 2 /\ ~IsTautology(c)}
Init == \E S \in kSubset(MaxInit, Alphabet \ {{}}) : orig = S /\ DratInit(S)
Add == \E c \in Alphabet : Cardinality(F) < MaxDb /\ c \notin F /\ Lemma(c) /\ UNCHANGED orig
Del == \E c \in F : Delete(c) /\ UNCHANGED orig
\* operational deletion, which ignores units and unknown clauses
DelLax == \E c \in Alphabet : DeleteLax(c) /\ UNCHANGED orig
Next == Add \/ Del \/ DelLax
Spec == Init /\ [][Next]_<<dvars, orig>>
RefutationSound == refuted => ~Sat(orig)
SatPreserved == Sat(orig) => Sat(F)
RupImplied == \A c \in Alphabet : Rup(F, c) => Implies(F, c)
=============================================================================
