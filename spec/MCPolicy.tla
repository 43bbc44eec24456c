------------------------------- MODULE MCPolicy -----------------------------
(* Restarts never come more often than every p.n conflicts, whatever the LBDs, *)
(* and reductions never throw away what is to be kept.                          *)
EXTENDS Policy
CONSTANTS N, MaxLbd, MaxConf
VARIABLES st, since, db
p == [n |-> N, m |-> N + 1, k100 |-> 80, r100 |-> 140]
Clauses == {<<l, i>> : l \in 0..MaxLbd, i \in 1..2}
Init == st = [lbds |-> <<>>, sizes |-> <<>>, sum |-> 0, n |-> 0] /\ since = N /\ db \in SUBSET Clauses
Learn == /\ st.n < MaxConf /\ \E x \in 1..MaxLbd : st' \in AfterConflict(st, p, x, 1) /\ since' = since + 1 /\ UNCHANGED db
Restart == MayTrigger(st, p) /\ st' = [st EXCEPT !.lbds = <<>>] /\ since' = 0 /\ UNCHANGED db
Reduce == \E new \in SUBSET db, median \in BOOLEAN : ReducedOk(db, new, 1, median) /\ db' = new /\ UNCHANGED <<st, since>>
Next == Learn \/ Restart \/ Reduce
Spec == Init /\ [][Next]_<<st, since, db>>
Spaced == Len(st.lbds) <= since /\ (MayTrigger(st, p) => since >= N)
SumOk == Total(st.lbds) <= st.sum /\ st.sum <= MaxLbd * st.n
Kept == [][\A c \in db : c[1] <= 1 => c \in db']_<<st, since, db>>
NotAll == [][Cand(db, 1) # {} => Cand(db', 1) # {}]_<<st, since, db>>
=============================================================================
