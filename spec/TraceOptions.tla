---------------------------- MODULE TraceOptions ----------------------------
(* Accepts runs of the option parser: the table is recorded once per history. *)
EXTENDS Options, Json, IOUtils
VARIABLES l, table, init
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<l, table, init>>
Ev == TraceLog[l]
TraceInit == l = 1 /\ table = <<>> /\ init = <<>>
Begin == Ev.e = "begin" /\ UNCHANGED <<table, init>>
DoTable == /\ Ev.e = "table" /\ table' = Ev.opts /\ init' = Ev.vals
           /\ Cardinality({Ev.opts[i].name : i \in DOMAIN Ev.opts}) = Len(Ev.opts)       \* no option hides another
           /\ \A i \in DOMAIN Ev.opts : Ev.opts[i].kind \in {"int", "double"} => Within(Ev.opts[i], Ev.vals[i])
DoParse == /\ Ev.e = "parse"
           /\ (LET st == Parse(table, [vals |-> init, rest |-> <<>>, end |-> ""], Ev.args, 1, Ev.strict)
               IN IF st.end = "error" THEN Ev.exit = 1
                  ELSE IF st.end = "help" THEN Ev.exit = 0
                  ELSE Ev.exit = 99 /\ Ev.vals = st.vals /\ Ev.rest = st.rest) = TRUE
           /\ UNCHANGED <<table, init>>
TraceNext == l <= Len(TraceLog) /\ l' = l + 1 /\ (Begin \/ DoTable \/ DoParse)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
            /\ TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
