------------------------------ MODULE TraceDrat -----------------------------
(* Accepts a solver run iff: an UNSAT answer comes with a proof file all of    *)
(* whose lines are valid and which derives the empty clause.                   *)
EXTENDS Drat, Json, IOUtils
VARIABLES l, answer
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<dvars, l, answer>>
Ev == TraceLog[l]
SeqDup(s) == IF Cardinality(ToFormula(s)) = Len(s) THEN NoDup
             ELSE LET T == [i \in 1..Len(s) |-> ToClause(s[i])]
                      D == {T[i] : i \in {k \in 1..Len(s) : \E j \in 1..(k - 1) : T[j] = T[k]}}
                  IN [c \in D |-> Cardinality({i \in 1..Len(s) : T[i] = c}) - 1]
TraceInit == l = 1 /\ answer = 0 /\ DratInit({})
Begin == Ev.e = "begin" /\ db' = {} /\ dup' = NoDup /\ refuted' = FALSE /\ answer' = 0
DoCnf == Ev.e = "adds" /\ db' = ToFormula(Ev.cs) /\ dup' = SeqDup(Ev.cs) /\ UNCHANGED <<refuted, answer>>
DoCall == Ev.e = "call" /\ UNCHANGED <<dvars, answer>>
DoSolve == Ev.e = "solve" /\ answer' = Ev.r /\ UNCHANGED dvars
\* a proof line after a SAT answer is not looked at
DoLemma == Ev.e = "lemma" /\ (IF answer = 20 THEN Lemma(ToClause(Ev.c)) ELSE UNCHANGED dvars) /\ UNCHANGED answer
DoDel == Ev.e = "del" /\ (IF answer = 20 THEN DeleteLax(ToClause(Ev.c)) ELSE UNCHANGED dvars) /\ UNCHANGED answer
DoEnd == Ev.e = "endproof" /\ ~Ev.junk /\ (answer = 20 => (refuted \/ {} \in F)) /\ UNCHANGED <<dvars, answer>>
DoRelease == Ev.e = "released" /\ UNCHANGED <<dvars, answer>>
TraceNext == /\ l <= Len(TraceLog) /\ l' = l + 1
             /\ \/ Begin \/ DoCnf \/ DoCall \/ DoSolve \/ DoLemma \/ DoDel \/ DoEnd \/ DoRelease
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
            /\ TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
