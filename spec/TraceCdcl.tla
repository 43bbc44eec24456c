------------------------------ MODULE TraceCdcl -----------------------------
(* Recorded runs of the real solver against Cdcl.  Events: start (clauses,     *)
(* assumptions), db (changes of the clause database), before (trail at the     *)
(* beginning of a propagation), prop (its outcome), learn, final (core of      *)
(* failed assumptions), result.                                                *)
EXTENDS Cdcl, Json, IOUtils
CONSTANTS CheckProp,    \* propagation is sound and complete
          CheckLearn,   \* learnt clauses and backjumps
          CheckDb,      \* database changes preserve the meaning of the formula
          CheckTrail,   \* trail discipline between propagations
          EnumVars      \* up to so many variables, all models are compared after a database change
VARIABLES l, sat, top
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<cvars, l, sat, top>>
Ev == TraceLog[l]
Want(flag, p) == (flag => p) = TRUE
TraceInit == /\ l = 1 /\ F = {} /\ as = <<>> /\ db = {} /\ ever = {} /\ trail = <<>> /\ confl = {} /\ pend = <<>> /\ answer = 0
             /\ sat = TRUE /\ top = 0
Begin == /\ Ev.e = "begin" /\ F' = {} /\ as' = <<>> /\ db' = {} /\ ever' = {} /\ trail' = <<>> /\ confl' = {} /\ pend' = <<>> /\ answer' = 0
         /\ sat' = TRUE /\ top' = 0
DoStart == /\ Ev.e = "start"
           /\ F' = F \cup NoTaut(ToFormula(Ev.cs)) /\ as' = Ev.as
           /\ db' = ToFormula(Ev.db) /\ ever' = db'
           /\ Want(CheckDb, \A c \in db' \ F' : Implies(F', c))
           /\ trail' = <<>> /\ confl' = {} /\ pend' = <<>> /\ answer' = 0 /\ top' = 0
           /\ sat' = SatUnder(F', ToClause(Ev.as))

\* every model of the database, restricted to the variables that are still in it, can be extended to a model of the formula
Extendable(d) == LET V == VarsOf(d) IN
    Cardinality(VarsOf(F)) <= EnumVars => \A m \in Valuations(V) : Satisfies(m, d) => SatUnder(F, m)
DoDb == /\ Ev.e = "db"
        /\ LET add == ToFormula(Ev.add)
               del == ToFormula(Ev.del)
           IN /\ db' = (db \ del) \cup add
              /\ ever' = ever \cup add
              /\ Want(CheckDb, \A c \in add : Implies(F, c))
        /\ Want(CheckDb, ~sat => ~SatUnder(db', ToClause(as)))
        /\ Want(CheckDb, Extendable(db'))
        /\ Want(CheckDb, Extendable(db' \ ToFormula(Ev.lrn)))      \* learnt clauses may be dropped at any time
        /\ UNCHANGED <<F, as, trail, confl, pend, answer, sat, top>>

Ent(x) == [l |-> x.l, v |-> x.v, r |-> ToClause(x.r)]
Extended(base) == base \o [i \in 1..Len(Ev.ents) |-> Ent(Ev.ents[i])]
AllOk(base, tr, C) == \A i \in (Len(base) + 1)..Len(tr) : EntryOk(SubSeq(tr, 1, i - 1), tr[i], C)
\* asymmetric branching probes a clause: between restarts, several literals are decided at level 1, propagated and taken back.
\* Only runs with that technique (Ev.asymm) may do so.
Probe(tr) == /\ Ev.asymm /\ Ev.lv = 1
             /\ \A i \in 1..Len(tr) : tr[i].v \in {0, 1} /\ (tr[i].v = 1 => tr[i].r = {} /\ Fresh(SubSeq(tr, 1, i - 1), tr[i]))
Facts(tr) == SelectSeq(tr, LAMBDA e : e.v = 0)
TrailOk(base, tr) == \/ /\ Ev.keep <= Len(trail) /\ CutOk(trail, Ev.keep)
                        /\ AllOk(base, tr, ever)
                     \/ /\ Probe(tr)
                        /\ Ev.keep <= Len(trail)
                        /\ AllOk(Facts(base), Facts(tr), ever)
                        /\ \A i \in 1..Len(tr) : tr[i].v = 0 => i <= Len(Facts(tr))
DoBefore == /\ Ev.e = "before"
            /\ LET base == SubSeq(trail, 1, Ev.keep) IN
               /\ trail' = Extended(base)
               /\ Want(CheckTrail, TrailOk(base, trail'))
               /\ Want(CheckLearn, pend # <<>> =>
                        /\ base = Cut(trail, pend[2])
                        /\ Len(Ev.ents) = 1
                        /\ trail'[Len(trail')] = [l |-> pend[1][1], v |-> pend[2], r |-> ToClause(pend[1])]
                        /\ Ev.lv = pend[2])
            /\ confl' = {} /\ pend' = <<>> /\ top' = Ev.lv
            /\ UNCHANGED <<F, as, db, ever, answer, sat>>
DoProp == /\ Ev.e = "prop"
          /\ trail' = Extended(trail)
          /\ LET C == IF Ev.sync THEN db ELSE ever
                 T == Lits(trail')
                 c == ToClause(Ev.c)
             IN /\ Want(CheckProp, Ev.keep = Len(trail) /\ Ev.lv = top)
                /\ Want(CheckProp, AllOk(trail, trail', C))
                /\ Want(CheckProp, \A i \in (Len(trail) + 1)..Len(trail') : trail'[i].r # {} /\ trail'[i].v = Ev.lv)
                /\ Want(CheckProp, IF Ev.confl THEN c \in C /\ IsConflict(T, c)
                                   ELSE Ev.sync => Fixpoint(T, {d \in db : Cardinality(d) > 1}))
                /\ confl' = IF Ev.confl THEN {c} ELSE {}
          /\ UNCHANGED <<F, as, db, ever, pend, answer, sat, top>>
DoLearn == /\ Ev.e = "learn"
           /\ LET c == ToClause(Ev.c) IN
              /\ Want(CheckLearn, confl = {ToClause(Ev.k)})
              /\ Want(CheckLearn, AssertingOk(trail, Ev.c, top, Ev.bt))
              /\ Want(CheckLearn, Ev.lbd = Cardinality(Levels(trail, Ev.c)))
              /\ Want(CheckLearn, Rup(db, c) \/ Implies(F, c))
              /\ db' = db \cup {c} /\ ever' = ever \cup {c}
           /\ pend' = <<Ev.c, Ev.bt>>
           /\ UNCHANGED <<F, as, trail, confl, answer, sat, top>>
DoFinal == /\ Ev.e = "final"
           /\ LET c == ToClause(Ev.core) IN
              Want(CheckLearn, Ev.p \in c /\ c \subseteq Neg(ToClause(as)) /\ Implies(F, c))
           /\ UNCHANGED <<cvars, sat, top>>
DoResult == /\ Ev.e = "result"
            /\ (CASE Ev.r = 10 -> LET m == ToClause(Ev.m) IN sat /\ Consistent(m) /\ Satisfies(m, F) /\ ToClause(as) \subseteq m
                  [] Ev.r = 20 -> ~sat
                  [] OTHER -> FALSE) = TRUE
            /\ answer' = Ev.r
            /\ UNCHANGED <<F, as, db, ever, trail, confl, pend, sat, top>>
TraceNext == /\ l <= Len(TraceLog) /\ l' = l + 1
             /\ \/ Begin \/ DoStart \/ DoDb \/ DoBefore \/ DoProp \/ DoLearn \/ DoFinal \/ DoResult
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
            /\ TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
