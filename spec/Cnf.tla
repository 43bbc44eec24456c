-------------------------------- MODULE Cnf --------------------------------
(* Propositional base theory used by every other module.                     *)
(* A literal is a non-zero integer (DIMACS), a clause a finite set of        *)
(* literals, a formula a finite set of clauses, a valuation a set of         *)
(* literals which contains no complementary pair.                            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Abs(x)        == IF x < 0 THEN -x ELSE x
Neg(S)        == {-l : l \in S}
VarsOfClause(c) == {Abs(l) : l \in c}
VarsOf(F)     == UNION {VarsOfClause(c) : c \in F}
ToClause(s)   == {s[i] : i \in 1..Len(s)}          \* sequence -> clause
ToFormula(s)  == {ToClause(s[i]) : i \in 1..Len(s)}
IsTautology(c) == \E l \in c : l > 0 /\ -l \in c
Consistent(S) == \A l \in S : -l \notin S

\* valuation m (a set of literals) satisfies ...
SatisfiesClause(m, c) == IsTautology(c) \/ m \cap c # {}
Satisfies(m, F)       == \A c \in F : SatisfiesClause(m, c)

\* the formula that is left when the literals of U are true
Reduct(F, U) == LET N == Neg(U) IN {c \ N : c \in {d \in F : d \cap U = {}}}

\* --- satisfiability, decided by a DPLL procedure on sets --------------------
RECURSIVE Dpll(_)
Dpll(F) ==
    IF F = {} THEN TRUE
    ELSE IF {} \in F THEN FALSE
    ELSE LET units == {c \in F : Cardinality(c) = 1} IN
         IF units # {}
         THEN LET U == UNION units IN Consistent(U) /\ Dpll(Reduct(F, U))
         ELSE \* branch on a most frequent literal of the shortest clauses
              LET bins == {c \in F : Cardinality(c) = 2}
                  cand == IF bins # {} THEN UNION bins ELSE UNION F
                  cnt  == [x \in cand |-> Cardinality({c \in F : x \in c})]
                  w    == [x \in cand |-> cnt[x] + (IF -x \in cand THEN cnt[-x] ELSE 0)]
                  l    == CHOOSE x \in cand : \A y \in cand : w[x] >= w[y]
              IN Dpll(Reduct(F, {l})) \/ Dpll(Reduct(F, {-l}))

NoTaut(F)     == {c \in F : ~IsTautology(c)}
Sat(F)        == Dpll(NoTaut(F))
SatUnder(F, A) == Consistent(A) /\ Dpll(Reduct(NoTaut(F), A))
Implies(F, c) == IsTautology(c) \/ ~SatUnder(F, Neg(c))

\* --- reference semantics by enumeration (used to check Dpll itself) ---------
Valuations(V) == {{IF v \in T THEN v ELSE -v : v \in V} : T \in SUBSET V}
SatByTable(F) == \E m \in Valuations(VarsOf(F)) : Satisfies(m, F)

\* --- unit propagation -------------------------------------------------------
\* least set of literals containing U closed under the unit rule; BOTTOM (0 in
\* the result) when a clause becomes empty.  The order cannot matter.
RECURSIVE Closure(_, _)
Closure(F, U) ==
    LET N    == Neg(U)
        cand == {d \in F : Cardinality(d \ N) <= 1 /\ d \cap U = {}}
        new  == UNION {d \ N : d \in cand}
    IN IF cand = {} THEN U
       ELSE IF (\E d \in cand : d \subseteq N) \/ ~Consistent(new) THEN U \cup new \cup {0}
       ELSE Closure(F, U \cup new)
Propagated(F, U) == Closure(NoTaut(F), U)
UPConflict(F, U) == ~Consistent(U) \/ 0 \in Propagated(F, U)

\* --- clausal proofs ---------------------------------------------------------
Rup(F, c) == IsTautology(c) \/ UPConflict(F, Neg(c))
RatOn(F, c, l) == \A d \in F : -l \in d => Rup(F, c \cup (d \ {-l}))
=============================================================================
