------------------------------- MODULE MCCdcl -------------------------------
(* The abstract procedure on every formula over a pool of clauses: whatever    *)
(* the order of decisions, propagations, restarts and deletions, database      *)
(* clauses are implied, and answers are right.                                 *)
EXTENDS Cdcl, SequencesExt
CONSTANTS NV, MaxClauses, MaxLearnt
Pool == {c \in SUBSET ((1..NV) \cup Neg(1..NV)) : c # {} /\ Cardinality(c) <= 3 /\ Consistent(c)}
Pools == IF NV = 2 THEN {S \in SUBSET Pool : Cardinality(S) <= MaxClauses}
         ELSE {S \in kSubset(MaxClauses, {c \in Pool : Cardinality(c) >= 2}) : VarsOf(S) = 1..NV}
Init == /\ F \in Pools
        /\ as \in {<<>>, <<1>>, <<-1, 2>>}
        /\ db = F /\ ever = F /\ trail = <<>> /\ confl = {} /\ pend = <<>> /\ answer = 0
T == Lits(trail)
Quiet == confl = {} /\ pend = <<>> /\ answer = 0
NextAssumption == {i \in 1..Len(as) : as[i] \notin T}
Push(e) == trail' = Append(trail, e)
Fact == /\ Quiet /\ TopLevel(trail) = 0
        /\ \E c \in db : Cardinality(c) = 1 /\ \E l \in c : l \notin T /\ -l \notin T /\ Push([l |-> l, v |-> 0, r |-> {}])
        /\ UNCHANGED <<F, as, db, ever, confl, pend, answer>>
Propagate == /\ Quiet
             /\ \E c \in Pending(T, db) : \E l \in c \ Neg(T) : Push([l |-> l, v |-> TopLevel(trail), r |-> c])
             /\ UNCHANGED <<F, as, db, ever, confl, pend, answer>>
Conflict == /\ Quiet
            /\ \E c \in db : IsConflict(T, c) /\ (IF TopLevel(trail) = 0 THEN answer' = 20 /\ confl' = {} ELSE confl' = {c} /\ answer' = 0)
            /\ UNCHANGED <<F, as, db, ever, trail, pend>>
Decide == /\ Quiet /\ Fixpoint(T, db)
          /\ IF NextAssumption # {}
             THEN LET i == Min(NextAssumption) IN
                  IF -as[i] \in T THEN answer' = 20 /\ trail' = trail
                  ELSE Push([l |-> as[i], v |-> TopLevel(trail) + 1, r |-> {}]) /\ answer' = 0
             ELSE \E x \in (1..NV) \cup Neg(1..NV) : x \notin T /\ -x \notin T /\ Push([l |-> x, v |-> TopLevel(trail) + 1, r |-> {}]) /\ answer' = 0
          /\ UNCHANGED <<F, as, db, ever, confl, pend>>
Model == /\ Quiet /\ Fixpoint(T, db) /\ VarsOfClause(T) = 1..NV /\ ToClause(as) \subseteq T /\ answer' = 10
         /\ UNCHANGED <<F, as, db, ever, trail, confl, pend>>
\* any asserting clause with the RUP property (1-UIP, minimized or not)
Learn == /\ confl # {} /\ pend = <<>> /\ answer = 0
         /\ \E S \in SUBSET Neg(T) :
               /\ S # {} /\ Rup(db, S)
               /\ \E l \in S : /\ Level(trail, l) = TopLevel(trail)
                               /\ \A k \in S \ {l} : Level(trail, k) < TopLevel(trail)
                               /\ LET R == S \ {l}
                                      bt == IF R = {} THEN 0 ELSE Max({Level(trail, k) : k \in R})
                                      two == IF R = {} THEN <<>> ELSE LET m == CHOOSE k \in R : Level(trail, k) = bt IN <<m>> \o SetToSeq(R \ {m})
                                  IN pend' = <<(<<l>> \o two), bt>>
               /\ db' = db \cup {S} /\ ever' = ever \cup {S}
         /\ UNCHANGED <<F, as, trail, confl, answer>>
Backjump == /\ pend # <<>>
            /\ trail' = Append(Cut(trail, pend[2]), [l |-> pend[1][1], v |-> pend[2], r |-> ToClause(pend[1])])
            /\ pend' = <<>> /\ confl' = {}
            /\ UNCHANGED <<F, as, db, ever, answer>>
Restart == /\ Quiet /\ TopLevel(trail) > 0 /\ trail' = <<>> /\ UNCHANGED <<F, as, db, ever, confl, pend, answer>>
Forget == /\ Quiet /\ trail = <<>> /\ \E c \in db \ F : Cardinality(c) > 1 /\ db' = db \ {c}
          /\ UNCHANGED <<F, as, ever, trail, confl, pend, answer>>
Next == Fact \/ Propagate \/ Conflict \/ Decide \/ Model \/ Learn \/ Backjump \/ Restart \/ Forget
Spec == Init /\ [][Next]_cvars
Bound == Cardinality(db \ F) <= MaxLearnt

TrailOk == \A i \in 1..Len(trail) : EntryOk(SubSeq(trail, 1, i - 1), trail[i], ever)
DbImplied == \A c \in db \ F : Implies(F, c)
LearntOk == pend # <<>> => AssertingOk(trail, pend[1], TopLevel(trail), pend[2])
AnswerOk == /\ answer = 20 => ~SatUnder(F, ToClause(as))
            /\ answer = 10 => Satisfies(T, F)
\* a conflict can always be resolved, and the procedure never gets stuck without an answer
NotStuck == answer = 0 => ENABLED Next
Inv == TrailOk /\ DbImplied /\ LearntOk /\ AnswerOk /\ NotStuck
=============================================================================
