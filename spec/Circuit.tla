------------------------------- MODULE Circuit -------------------------------
(* What is derived from a recognized circuit.  A circuit maps every gate's    *)
(* output variable to the set of variables of its inputs; a variable outside  *)
(* the domain is an input of the circuit.                                     *)
EXTENDS Cnf
\* the gates below the given ones, where gates in P are not entered
RECURSIVE Below(_, _, _)
Below(inp, S, P) == LET T == S \cup {v \in UNION {inp[g] : g \in S} : v \in DOMAIN inp /\ v \notin P}
                    IN IF T = S THEN S ELSE Below(inp, T, P)
Reach(inp, R, P) == Below(inp, {v \in R : v \in DOMAIN inp /\ v \notin P}, P)
Position(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Distinct(s)    == Cardinality(ToClause(s)) = Len(s)
\* every gate of S once, behind the gates of S among its inputs
Topological(inp, s, S) == /\ Distinct(s) /\ ToClause(s) = S
                          /\ \A g \in S : \A i \in inp[g] \cap S : Position(s, i) < Position(s, g)
\* every gate of S once, a gate only behind a root or one of its parents
Discovery(inp, s, S, R) == /\ Distinct(s) /\ ToClause(s) = S
                           /\ \A k \in DOMAIN s : s[k] \in R \/ \E j \in 1..k-1 : s[k] \in inp[s[j]]
InputsOf(inp, S) == UNION {inp[g] : g \in S} \ DOMAIN inp
\* the circuit's inputs on which a gate depends
Support(inp, g) == InputsOf(inp, Below(inp, {g}, {}))
\* the step at which a gate with n inputs is given up: the first whose limit it exceeds
StepOf(n, limits) == LET X == {i \in DOMAIN limits : n > limits[i]} IN IF X = {} THEN Len(limits) + 1 ELSE Min(X)
=============================================================================
