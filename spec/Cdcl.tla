-------------------------------- MODULE Cdcl --------------------------------
(* Conflict-driven clause learning: clause database, assignment trail,         *)
(* propagation, conflict analysis, backjumping, restarts and clause deletion.  *)
(* Levels are kept in the trail entries, so levels without an entry (an        *)
(* assumption which is already true) need no special treatment.                *)
EXTENDS Cnf
VARIABLES
    F,        \* clauses given by the user
    as,       \* assumptions (sequence of literals)
    db,       \* clause database
    ever,     \* every clause that has been in the database
    trail,    \* sequence of [l |-> literal, v |-> level, r |-> reason clause ({}: none)]
    confl,    \* set of at most one conflict clause
    pend,     \* <<>> or <<clause (sequence), backtrack level>>: learnt, not asserted yet
    answer    \* 0, 10, 20
cvars == <<F, as, db, ever, trail, confl, pend, answer>>

Lits(tr) == {tr[i].l : i \in 1..Len(tr)}
LevelOf(tr, x) == (CHOOSE i \in 1..Len(tr) : Abs(tr[i].l) = Abs(x)) 
Level(tr, x) == tr[LevelOf(tr, x)].v
TopLevel(tr) == IF tr = <<>> THEN 0 ELSE tr[Len(tr)].v

\* may entry e follow the trail prefix tr?  C: clauses which may be used
Fresh(tr, e)    == LET T == Lits(tr) IN e.l \notin T /\ -e.l \notin T
IsDecision(tr, e) == e.r = {} /\ e.v > TopLevel(tr)
IsFact(tr, e, C)  == e.r = {} /\ e.v = 0 /\ TopLevel(tr) = 0 /\ {e.l} \in C
IsImplied(tr, e, C) == /\ e.r \in C
                       /\ e.l \in e.r
                       /\ (e.r \ {e.l}) \subseteq Neg(Lits(tr))
                       /\ e.v >= TopLevel(tr)
EntryOk(tr, e, C) == Fresh(tr, e) /\ (IsDecision(tr, e) \/ IsFact(tr, e, C) \/ IsImplied(tr, e, C))

\* clauses which are unit or false under the trail: propagation is complete when there is none
Pending(T, C) == LET N == Neg(T) IN {d \in C : d \cap T = {} /\ Cardinality(d \ N) <= 1}
Fixpoint(T, C) == Pending(T, C) = {}
IsConflict(T, c) == c \subseteq Neg(T)

\* cutting the trail: only whole levels go (level 0 may be rebuilt)
CutOk(tr, k) == k = Len(tr) \/ k = 0 \/ tr[k].v = 0 \/ tr[k + 1].v > tr[k].v
Cut(tr, lev) == SelectSeq(tr, LAMBDA e : e.v <= lev)

\* a learnt clause (a sequence: the asserted literal first)
Levels(tr, c) == {Level(tr, c[i]) : i \in 1..Len(c)}
AssertingOk(tr, c, top, bt) ==
    /\ Len(c) >= 1
    /\ ToClause(c) \subseteq Neg(Lits(tr))
    /\ Level(tr, c[1]) = top
    /\ \A i \in 2..Len(c) : Level(tr, c[i]) < top
    /\ IF Len(c) = 1 THEN bt = 0
       ELSE bt = Max({Level(tr, c[i]) : i \in 2..Len(c)}) /\ Level(tr, c[2]) = bt
=============================================================================
