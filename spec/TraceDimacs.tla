----------------------------- MODULE TraceDimacs ----------------------------
(* text events carry a whole (small) text, which the specification parses;    *)
(* tokens events carry the clause list a large file was rendered from.        *)
EXTENDS Dimacs, Json, IOUtils
VARIABLES l, want, problem
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<l, want, problem>>
Ev == TraceLog[l]
Want(ok, cs) == [ok |-> ok, cs |-> Normal(cs), mv |-> MaxVar(cs)]
Nothing == [ok |-> FALSE, cs |-> <<>>, mv |-> 0]
TraceInit == l = 1 /\ want = Nothing /\ problem = <<>>
Begin == Ev.e = "begin" /\ want' = Nothing /\ problem' = <<>>
DoText == Ev.e = "text" /\ want' = (LET P == Parse(Ev.t) IN Want(P.ok, P.cs)) /\ UNCHANGED problem
DoTokens == Ev.e = "tokens" /\ want' = Want(TRUE, Ev.cs) /\ UNCHANGED problem
Matches(cs) == /\ Len(cs) = Len(want.cs)
               /\ \A i \in 1..Len(cs) : ToClause(cs[i]) = want.cs[i] /\ Len(cs[i]) = Cardinality(want.cs[i])
DoRead == /\ Ev.e = "read" /\ Ev.ok = want.ok
          /\ want.ok => /\ Matches(Ev.cs)
                        /\ Ev.nv = want.mv /\ Ev.nc = Len(Ev.cs)
          /\ UNCHANGED <<want, problem>>
\* printing and reading again gives the same clauses in the same order
DoReread == /\ Ev.e = "reread" /\ Ev.ok /\ Matches(Ev.cs) /\ UNCHANGED <<want, problem>>
TraceNext == l <= Len(TraceLog) /\ l' = l + 1 /\ (Begin \/ DoText \/ DoTokens \/ DoRead \/ DoReread)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
            /\ TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
