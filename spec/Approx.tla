------------------------------- MODULE Approx -------------------------------
(* Abstraction refinement: conjectures (classes of equivalent literals and    *)
(* backbone literals) are added to a formula as clauses that carry an         *)
(* assumption literal; refinement removes variables from the conjectures.     *)
EXTENDS Cnf
\* what the conjectures say when the variables of R have been removed
KeptClass(c, R)     == {x \in c : Abs(x) \notin R}
Meaning(classes, bbs, R, m) == /\ \A i \in DOMAIN classes : LET k == KeptClass(classes[i], R) IN k \subseteq m \/ k \cap m = {}
                               /\ \A b \in bbs : Abs(b) \notin R => b \in m
ConjVars(classes, bbs) == {Abs(x) : x \in bbs \cup UNION {classes[i] : i \in DOMAIN classes}}
\* the clauses which are switched on by the assumptions A (over problem variables V)
Active(C, A, V) == {{x \in c : Abs(x) \in V} : c \in {d \in C : \A x \in d : Abs(x) \in V \/ -x \in A}}
\* the approximation says exactly what is left of the conjectures
Exact(C, A, classes, bbs, R) == LET V == ConjVars(classes, bbs) act == Active(C, A, V)
                                IN \A m \in Valuations(V) : Satisfies(m, act) <=> Meaning(classes, bbs, R, m)
\* every approximation clause can be switched off
Guarded(C, A, V) == \A c \in C : \E x \in c : Abs(x) \notin V /\ (x \in A \/ -x \in A)
=============================================================================
