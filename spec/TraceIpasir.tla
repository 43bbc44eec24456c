---------------------------- MODULE TraceIpasir -----------------------------
(* Accepts exactly those recorded histories of the real interface which are   *)
(* behaviours of Ipasir.                                                      *)
EXTENDS Ipasir, Json, IOUtils
VARIABLES l, seen, calling
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<ivars, l, seen, calling>>
TraceInit == IpasirInit /\ l = 1 /\ seen = {} /\ calling = FALSE
Ev == TraceLog[l]
\* "next": the history of another solver that was used side by side with the one before
Begin == Ev.e \in {"begin", "next"} /\ clauses' = {} /\ assumptions' = {} /\ maxlen' = 0 /\ budget' = -1 /\ Input /\ seen' = {} /\ calling' = FALSE
DoAdd == Ev.e = "add" /\ ~calling /\ Add(ToClause(Ev.c)) /\ seen' = seen \cup VarsOfClause(ToClause(Ev.c)) /\ UNCHANGED calling
DoAssume == Ev.e = "assume" /\ ~calling /\ Assume(Ev.l) /\ seen' = seen \cup {Abs(Ev.l)} /\ UNCHANGED calling
DoLearn == Ev.e = "setlearn" /\ ~calling /\ SetLearn(Ev.n) /\ UNCHANGED <<seen, calling>>
DoTerm == Ev.e = "setterm" /\ ~calling /\ SetTerm(Ev.n) /\ UNCHANGED <<seen, calling>>
DoAdds == /\ Ev.e = "adds" /\ ~calling /\ AddAll(ToFormula(Ev.cs)) /\ seen' = seen \cup VarsOf(ToFormula(Ev.cs)) /\ UNCHANGED calling
DoCall == Ev.e = "call" /\ ~calling /\ calling' = TRUE /\ UNCHANGED <<ivars, seen>>
DoSolve == /\ Ev.e = "solve" /\ calling /\ calling' = FALSE
           /\ CheckAnswers => Ev.cons
           /\ (CheckLearn \/ CheckTerm) => Ev.foreign = 0        \* callbacks get the state they were registered with
           /\ Solve(Ev.r, ToClause(Ev.m), ToClause(Ev.f), ToFormula(Ev.ln), Ev.tc, ToClause(Ev.w), Ev.full)
           /\ CheckAnswers => (Ev.r = 10 => seen = {Abs(x) : x \in ToClause(Ev.m)})
           /\ (CheckLearn /\ Ev.nc > 0 /\ seen # {} /\ maxlen >= Cardinality(seen)) => Len(Ev.ln) = Ev.nc
           \* what another solver learns in the same history, if it is short enough
           /\ (CheckLearn /\ Ev.twin) => Ev.ln = SelectSeq(Ev.all, LAMBDA c : Len(c) <= maxlen)
           /\ UNCHANGED seen
DoRelease == Ev.e = "released" /\ ~calling /\ UNCHANGED <<ivars, seen, calling>>
\* there is no action for a "crash" event: a history which contains one is rejected
TraceNext == /\ l <= Len(TraceLog) /\ l' = l + 1
             /\ \/ Begin \/ DoAdd \/ DoAssume \/ DoLearn \/ DoTerm \/ DoAdds \/ DoCall \/ DoSolve \/ DoRelease
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
            /\ TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
