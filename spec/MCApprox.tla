------------------------------ MODULE MCApprox ------------------------------
(* Implication cycles: each class is represented by a cycle of implications,  *)
(* removing a variable closes the gap by one new implication.                 *)
EXTENDS Approx
CONSTANTS N, MaxBB
VARIABLES class, bbs, succ, clauses, asm, removed, nextvar
vars == <<class, bbs, succ, clauses, asm, removed, nextvar>>
P == 1..(N + MaxBB)
AV == N + MaxBB
\* implication pairs -> guarded clauses with fresh assumption variables
RECURSIVE Encode(_, _)
Encode(S, n) == IF S = {} THEN {} ELSE LET s == CHOOSE x \in S : TRUE
                IN {[what |-> s, av |-> n]} \cup Encode(S \ {s}, n + 1)
ClauseOf(g) == IF Len(g.what) = 2 THEN {-g.what[1], g.what[2], g.av} ELSE {g.what[1], g.av}
Lits == {s \in [1..N -> {-1, 1}] : s[1] = 1}
Cycle(q) == IF Len(q) < 2 THEN {} ELSE {<<q[i], q[(i % Len(q)) + 1]>> : i \in 1..Len(q)}
Init == /\ \E s \in Lits : class = [i \in 1..N |-> s[i] * i]
        /\ bbs = {N + i : i \in 1..MaxBB}
        /\ removed = {}
        /\ succ = Cycle(class)
        /\ LET g == Encode(succ \cup {<<b>> : b \in bbs}, AV + 1)
           IN clauses = g /\ asm = {-x.av : x \in g} /\ nextvar = AV + 1 + Cardinality(g)
\* one refinement step removes the variables of R at once
RECURSIVE Close(_, _)
Close(S, R) == IF R = {} THEN S
               ELSE LET v == CHOOSE x \in R : TRUE
                        ins == {p \in S : Abs(p[2]) = v}
                        outs == {p \in S : Abs(p[1]) = v}
                        new == {<<p[1], q[2]>> : p \in ins, q \in outs}
                    IN Close((S \ (ins \cup outs)) \cup {p \in new : p[1] # p[2]}, R \ {v})
Refine == \E R \in SUBSET (P \ removed) :
            /\ R # {}
            /\ removed' = removed \cup R
            /\ LET s2 == Close(succ, R)
                   g == Encode(s2 \ succ, nextvar)
                   off == {x \in clauses : (Len(x.what) = 2 /\ x.what \in succ \ s2) \/ (Len(x.what) = 1 /\ Abs(x.what[1]) \in R)}
               IN /\ succ' = s2
                  /\ clauses' = clauses \cup g
                  /\ asm' = (asm \ {-x.av : x \in off}) \cup {x.av : x \in off} \cup {-x.av : x \in g}
                  /\ nextvar' = nextvar + Cardinality(g)
            /\ UNCHANGED <<class, bbs>>
Next == Refine
Spec == Init /\ [][Next]_vars
C == {ClauseOf(x) : x \in clauses}
ExactInv == Exact(C, asm, <<ToClause(class)>>, bbs, removed)
GuardInv == Guarded(C, asm, P)
FinallyOff == removed = P => Active(C, asm, P) = {}
=============================================================================
