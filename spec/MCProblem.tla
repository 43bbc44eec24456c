----------------------------- MODULE MCProblem -----------------------------
(* A problem and a variant of it that arises by the changes which keep its      *)
(* degree fingerprint: other order of clauses, other names and signs.           *)
EXTENDS Problem
CONSTANTS V, MaxClauses
VARIABLES p, q, changed
vars == <<p, q, changed>>
Clauses == {s \in UNION {[1..k -> (-V..V) \ {0}] : k \in 0..2} : TRUE}
Init == p = Empty /\ q = Empty /\ changed = {}
Read == /\ changed = {} /\ Len(p.cs) < MaxClauses
        /\ \E c \in Clauses : p' = ReadAll(p, <<c>>)
        /\ q' = p' /\ UNCHANGED changed
Max1 == Max({p.n, q.n})
Permute == /\ \E i \in 1..(Len(q.cs) - 1) : q' = [q EXCEPT !.cs[i] = q.cs[i + 1], !.cs[i + 1] = q.cs[i]]
           /\ changed' = changed \cup {"order"} /\ UNCHANGED p
Normalize == Len(p.cs) > 0 /\ q' = Normalized(q) /\ changed' = changed \cup {"names"} /\ UNCHANGED p
Flip == /\ Len(p.cs) > 0
        /\ \E v \in 1..V : q' = [q EXCEPT !.cs = [i \in 1..Len(q.cs) |-> [j \in 1..Len(q.cs[i]) |-> IF Abs(q.cs[i][j]) = v THEN -q.cs[i][j] ELSE q.cs[i][j]]]]
        /\ changed' = changed \cup {"signs"} /\ UNCHANGED p
Next == Read \/ Permute \/ Normalize \/ Flip
Spec == Init /\ [][Next]_vars
F(x) == ToFormula(x.cs)
SameDegrees == [i \in 1..Len(Degrees(p.cs)) |-> Degrees(p.cs)[i][2]] = [i \in 1..Len(Degrees(q.cs)) |-> Degrees(q.cs)[i][2]]
TextIdentifies == (Text(p.cs) = Text(q.cs)) <=> (p.cs = q.cs)
SameAnswer == Sat(F(p)) = Sat(F(q)) /\ Len(p.cs) = Len(q.cs)
WellFormed == \A x \in {p, q} : /\ \A i \in 1..Len(x.cs) : Cardinality(ToClause(x.cs[i])) = Len(x.cs[i]) /\ ~IsTautology(ToClause(x.cs[i]))
                                /\ \A y \in Lits(x.cs) : Abs(y) <= x.n
GapLess == LET m == Normalized(q) IN {Abs(x) : x \in Lits(m.cs)} = 1..m.n /\ Normalized(m) = m
\* the digests that RFC 1321 prescribes
Rfc == /\ Digest(<<>>) = "d41d8cd98f00b204e9800998ecf8427e"
       /\ Digest(<<97, 98, 99>>) = "900150983cd24fb0d6963f7d28e17f72"
       /\ Digest([i \in 1..80 |-> 48 + (i % 10)]) = "57edf4a22be3c955ac49da2e2107b67a"
ASSUME Rfc
=============================================================================
