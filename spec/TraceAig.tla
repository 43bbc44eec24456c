------------------------------ MODULE TraceAig ------------------------------
(* Accepts the circuits printed by cnf2aig.                                    *)
EXTENDS Aig, Json, IOUtils
VARIABLES l, cnf
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<l, cnf>>
Ev == TraceLog[l]
TraceInit == l = 1 /\ cnf = {}
Begin == Ev.e = "begin" /\ cnf' = {}
DoCnf == Ev.e = "cnf" /\ cnf' = ToFormula(Ev.cs)
DoAig == /\ Ev.e = "aig" /\ Ev.exit = 0 /\ Ev.junk = 0
         /\ (WellFormed(Ev) /\ Represents(Ev, cnf)) = TRUE
         /\ UNCHANGED cnf
TraceNext == l <= Len(TraceLog) /\ l' = l + 1 /\ (Begin \/ DoCnf \/ DoAig)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
            /\ TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
