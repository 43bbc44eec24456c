------------------------------ MODULE TraceCli ------------------------------
(* Accepts runs of the program.  A run whose text is given is parsed here;    *)
(* otherwise its clauses are given.                                           *)
EXTENDS Cli, Json, IOUtils
VARIABLES l, text
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<l, text>>
Ev == TraceLog[l]
None == [ok |-> FALSE, cs |-> <<>>, truth |-> 0]
TraceInit == l = 1 /\ text = None
Begin == Ev.e = "begin" /\ text' = None
DoText == Ev.e = "text" /\ text' = TLCEval(LET p == Parse(Ev.t) IN [ok |-> p.ok, cs |-> p.cs, truth |-> 0])
DoClauses == Ev.e = "clauses" /\ text' = [ok |-> TRUE, cs |-> Ev.cs, truth |-> Ev.truth]
DoRun == Ev.e = "run" /\ Outcome(Ev.o, Ev.r, text.ok, text.cs, text.truth) = TRUE /\ UNCHANGED text
\* killed by the interrupt before it was prepared for it: nothing has been claimed
DoKilled == Ev.e = "killed" /\ Ev.s = <<>> /\ Ev.sig = 2 /\ UNCHANGED text
TraceNext == l <= Len(TraceLog) /\ l' = l + 1 /\ (Begin \/ DoText \/ DoClauses \/ DoRun \/ DoKilled)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
            /\ TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
