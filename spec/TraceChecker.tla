---------------------------- MODULE TraceChecker ----------------------------
(* Verdicts of the built-in proof checker against Drat: the checker accepts    *)
(* exactly the refutations, and therefore only for unsatisfiable formulas.     *)
EXTENDS Drat, Json, IOUtils
VARIABLES l, orig, valid, nv, known
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<dvars, l, orig, valid, nv, known>>
Ev == TraceLog[l]
SeqDup(s) == IF Cardinality(ToFormula(s)) = Len(s) THEN NoDup
             ELSE LET T == [i \in 1..Len(s) |-> ToClause(s[i])]
                      D == {T[i] : i \in {k \in 1..Len(s) : \E j \in 1..(k - 1) : T[j] = T[k]}}
                  IN [c \in D |-> Cardinality({i \in 1..Len(s) : T[i] = c}) - 1]
TraceInit == l = 1 /\ orig = {} /\ valid = TRUE /\ nv = 0 /\ known = TRUE /\ DratInit({})
Begin == Ev.e = "begin" /\ db' = {} /\ dup' = NoDup /\ refuted' = FALSE /\ orig' = {} /\ valid' = TRUE /\ nv' = 0 /\ known' = TRUE
DoCnf == /\ Ev.e = "adds" /\ LET s == SelectSeq(Ev.cs, LAMBDA c : ~IsTautology(ToClause(c))) IN
            db' = ToFormula(s) /\ dup' = SeqDup(s) /\ refuted' = ({} \in db')
         /\ orig' = db' /\ nv' = Max(VarsOf(ToFormula(Ev.cs)) \cup {0}) /\ UNCHANGED <<valid, known>>
\* the checker works over the variables of the formula; extension variables are not supported
Known(c) == \A x \in c : Abs(x) <= nv
\* a line after the refutation is not looked at, a line after an invalid one neither
DoLemma == /\ Ev.e = "lemma"
           /\ LET c == ToClause(Ev.c) IN
              /\ valid' = (valid /\ (refuted \/ UPConflict(F, {}) \/ (Known(c) /\ LemmaOk(c))))
              /\ known' = (known /\ Known(c))
              /\ IF valid' /\ ~refuted THEN Insert(c) /\ refuted' = (c = {}) ELSE UNCHANGED dvars
           /\ UNCHANGED <<orig, nv>>
DoDel == /\ Ev.e = "del"
         /\ (IF valid /\ ~refuted THEN DeleteLax(ToClause(Ev.c)) ELSE UNCHANGED dvars)
         /\ UNCHANGED <<orig, valid, nv, known>>
\* refuted can be reached before the empty clause is written: a unit that contradicts a unit
DoVerdict == /\ Ev.e = "verdict"
             /\ (CASE Ev.v = "accept" -> valid /\ (refuted \/ UPConflict(F, {})) /\ ~Sat(orig)
                   [] Ev.v = "reject" -> ~(valid /\ refuted /\ known)
                   [] OTHER -> FALSE) = TRUE
             /\ UNCHANGED <<dvars, orig, valid, nv, known>>
TraceNext == /\ l <= Len(TraceLog) /\ l' = l + 1
             /\ \/ Begin \/ DoCnf \/ DoLemma \/ DoDel \/ DoVerdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
            /\ TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
