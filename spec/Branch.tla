------------------------------- MODULE Branch -------------------------------
(* Branching: which decision a heuristic may take.                             *)
(* A decision is a literal, 0 if there is none.  The advice of implicit         *)
(* learning opposes a conjectured equivalence or backbone.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
BAbs(x) == IF x < 0 THEN -x ELSE x
MaxOf(x, y) == IF x > y THEN x ELSE y
MinOf(x, y) == IF x < y THEN x ELSE y
Near(x, y, d) == x - y <= d /\ y - x <= d
Elems(s) == {s[i] : i \in 1..Len(s)}

\* --- plain decisions -----------------------------------------------------------
\* un: unassigned decision variables, top: those of highest activity, phase: saved polarity (0: not determined)
Plain(r, un, top, phase) == IF un = {} THEN r = 0
                            ELSE /\ r # 0 /\ BAbs(r) \in top /\ top \subseteq un
                                 /\ phase[BAbs(r)] = 0 \/ (phase[BAbs(r)] > 0) = (r > 0)

\* --- implicit learning ---------------------------------------------------------
\* eq: set of classes of equivalent literals, bb: set of literals, size: greatest class that is used
Small(eq, size) == {C \in eq : Cardinality(C) <= size}
\* literals that contradict a conjecture once x is true
Opposites(eq, size, x) == UNION ({{-y : y \in C \ {x}} : C \in {D \in Small(eq, size) : x \in D}} \cup {C \ {-x} : C \in {D \in Small(eq, size) : -x \in D}})
InBackbone(bb, v) == v \in bb \/ -v \in bb
\* used: how often an advice (a pair of variables) has been taken; budget 0 stands for no bound
Left(used, budget, k) == budget = 0 \/ k \notin DOMAIN used \/ used[k] < budget
Usable(eq, bb, size, used, budget, un, x) == IF InBackbone(bb, BAbs(x)) THEN {}
    ELSE {y \in Opposites(eq, size, x) : BAbs(y) \in un /\ Left(used, budget, <<BAbs(x), BAbs(y)>>)}
\* position of the first literal of the current decision level which has an advice
Sources(lv, U(_)) == {i \in 1..Len(lv) : U(lv[i]) # {}}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
Bump(used, k) == (k :> (IF k \in DOMAIN used THEN used[k] ELSE 0) + 1) @@ used
\* the sign of the plain decision is opposed to a conjectured backbone
Signed(r, un, top, phase, bb, used, budget) ==
    IF un = {} THEN r = 0
    ELSE LET v == BAbs(r) IN
         IF r # 0 /\ InBackbone(bb, v) /\ Left(used, budget, <<v, v>>)
         THEN v \in top /\ top \subseteq un /\ -r \in bb
         ELSE Plain(r, un, top, phase)
=============================================================================
