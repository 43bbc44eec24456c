------------------------------- MODULE MCGates ------------------------------
(* The recognition procedure on all small formulas, in every order.            *)
EXTENDS Gates, SequencesExt
CONSTANTS NV, MaxClauses, MaxLen
Lits == (1..NV) \cup {-v : v \in 1..NV}
Alphabet == {c \in SUBSET Lits : Cardinality(c) \in 1..MaxLen /\ ~IsTautology(c)}
Init == /\ \E S \in UNION {kSubset(k, Alphabet) : k \in 1..MaxClauses} : clauses = SetToSeq(S)
        /\ roots = {} /\ gates = <<>> /\ index = 1..Len(clauses)
Root == UnitRoots \/ \E x \in Lits : MoreRoots(x)
Gate == \E o \in Lits : Recognize(o)
Next == Root \/ Gate
Spec == Init /\ [][Next]_gvars
=============================================================================
