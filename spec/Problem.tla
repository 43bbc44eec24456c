------------------------------ MODULE Problem ------------------------------
(* A CNF problem as the program stores it, and the fingerprints that identify  *)
(* it.  The state is the sequence of stored clauses - each a sequence of        *)
(* literals in the order of the variables without repetitions, tautologies      *)
(* are dropped - and the number of variables.                                   *)
EXTENDS Cnf, Md5, SequencesExt

Before(a, b) == Abs(a) < Abs(b) \/ (Abs(a) = Abs(b) /\ a > b)
Stored(s)  == SetToSortSeq(ToClause(s), Before)
RECURSIVE ReadAll(_, _)
ReadAll(prob, cs) ==
    IF cs = <<>> THEN prob
    ELSE LET c == Head(cs)
             n == Max({prob.n} \cup {Abs(c[i]) : i \in 1..Len(c)})
             d == IF IsTautology(ToClause(c)) THEN prob.cs ELSE Append(prob.cs, Stored(c))
         IN ReadAll(TLCEval([cs |-> d, n |-> n]), Tail(cs))
Empty == [cs |-> <<>>, n |-> 0]

Lits(cs)  == UNION {ToClause(cs[i]) : i \in 1..Len(cs)}
VarsSeq(cs) == FlattenSeq([i \in 1..Len(cs) |-> [j \in 1..Len(cs[i]) |-> Abs(cs[i][j])]])
\* names in the order of first appearance, without gaps
Names(cs) == LET vs == VarsSeq(cs)
                 first == [v \in ToClause(vs) |-> CHOOSE i \in 1..Len(vs) : vs[i] = v /\ \A j \in 1..(i - 1) : vs[j] # v]
             IN [v \in ToClause(vs) |-> Cardinality({w \in ToClause(vs) : first[w] <= first[v]})]
Renamed(cs, f) == [i \in 1..Len(cs) |-> [j \in 1..Len(cs[i]) |-> IF cs[i][j] < 0 THEN -f[-cs[i][j]] ELSE f[cs[i][j]]]]
Normalized(prob) == [cs |-> Renamed(prob.cs, Names(prob.cs)), n |-> Cardinality({Abs(x) : x \in Lits(prob.cs)})]

\* a (possibly partial) valuation is accepted exactly if it satisfies every clause
Confirms(m, prob) == \A i \in 1..Len(prob.cs) : ToClause(prob.cs[i]) \cap m # {}

\* --- fingerprints -----------------------------------------------------------
\* the clauses in DIMACS notation on one line
ClauseText(c) == FlattenSeq([j \in 1..Len(c) |-> DecInt(c[j]) \o <<32>>]) \o <<48>>
Text(cs) == FlattenSeq([i \in 1..Len(cs) |-> IF i = 1 THEN ClauseText(cs[i]) ELSE <<32>> \o ClauseText(cs[i])])
GbdHash(cs) == Digest(Text(cs))

\* how often the literals occur in the clauses that no unit clause satisfies;
\* complements of unit clauses do not count
Facts(cs) == {cs[i][1] : i \in {j \in 1..Len(cs) : Len(cs[j]) = 1}}
Degree(cs, x) == IF -x \in Facts(cs) THEN 0
                 ELSE Cardinality({i \in 1..Len(cs) : x \in ToClause(cs[i]) /\ ToClause(cs[i]) \cap Facts(cs) = {}})
Degrees(cs) == SortSeq(SetToSeq({<<x, Degree(cs, x)>> : x \in {y \in Lits(cs) : Degree(cs, y) > 0}}), LAMBDA a, b : a[2] < b[2])
DegreeText(cs) == LET d == Degrees(cs) IN FlattenSeq([i \in 1..Len(d) |-> IF i = 1 THEN Dec(d[i][2]) ELSE <<32>> \o Dec(d[i][2])])
DegreeHash(cs) == Digest(DegreeText(cs))
=============================================================================
