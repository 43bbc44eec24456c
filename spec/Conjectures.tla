----------------------------- MODULE Conjectures -----------------------------
(* What random simulation may conjecture.  A column is the sequence of what   *)
(* has been observed of one variable; an observation is <<base, positions>>:  *)
(* the vector which is constantly base except at the positions.               *)
EXTENDS Cnf
Flip(o)     == <<1 - o[1], o[2]>>
FlipAll(c)  == [i \in DOMAIN c |-> Flip(c[i])]
Constant(c, b) == c # <<>> /\ \A i \in DOMAIN c : c[i] = <<b, {}>>
IsConstant(c)  == Constant(c, 0) \/ Constant(c, 1)
Related(c, d)  == c = d \/ c = FlipAll(d)
\* backbone conjectures: a set bit means false
Backbones(col) == {v \in DOMAIN col : Constant(col[v], 0)} \cup {-v : v \in {u \in DOMAIN col : Constant(col[u], 1)}}
\* equivalence conjectures: classes of at least two variables, each given with its complement
ClassOf(col, R, v) == {u \in R : col[u] = col[v]} \cup {-u : u \in {w \in R : col[w] = FlipAll(col[v])}}
Equivalences(col) == LET R == {v \in DOMAIN col : ~IsConstant(col[v])}
                     IN {p \in {{ClassOf(col, R, v), Neg(ClassOf(col, R, v))} : v \in R} : \A c \in p : Cardinality(c) > 1}
\* a list of equivalence conjectures (sequences of literals) describes the classes
Describes(eqs, E) == /\ \A i \in DOMAIN eqs : Cardinality(ToClause(eqs[i])) = Len(eqs[i])
                     /\ {{ToClause(eqs[i]), Neg(ToClause(eqs[i]))} : i \in DOMAIN eqs} = E
                     /\ Len(eqs) = Cardinality(E)
=============================================================================
