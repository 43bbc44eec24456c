---------------------------- MODULE TraceStorage ----------------------------
(* Recorded histories of the real clause database against Storage.             *)
EXTENDS Storage, Json, IOUtils
VARIABLES l
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<svars, l>>
Ev == TraceLog[l]
TraceInit == l = 1 /\ StoreInit
Begin == Ev.e = "begin" /\ live' = EmptyBag /\ empty' = FALSE /\ log' = <<>>
DoInit == /\ Ev.e = "init"
          /\ live' = Bag([i \in 1..Len(Ev.cs) |-> <<Ev.cs[i], 0>>]) /\ Bag(Ev.all) = live'
          /\ empty' = (\E i \in 1..Len(Ev.cs) : Len(Ev.cs[i]) = 0) /\ UNCHANGED log
DoCreate == /\ Ev.e = "create" /\ Create(Ev.c, Ev.lbd, Ev.lemma)
            /\ Size(Ev.c) = Ev.n /\ Ev.got = <<Ev.c, Weight(Ev.n, Ev.lbd)>>
DoRemove == Ev.e = "remove" /\ Drop(Ev.x) /\ Ev.dead
DoStrengthen == /\ Ev.e = "strengthen" /\ Strengthen(Ev.x, Ev.l) /\ Ev.dead
                /\ Ev.got[1] = Without(Ev.x[1], Ev.l) /\ Size(Ev.x[1]) = Ev.n
DoList == (Ev.e = "list" \/ Ev.e = "reorg") /\ ListingOk(Ev.all, Ev.units, Ev.bins, Ev.empty) /\ UNCHANGED svars
DoCert == Ev.e = "cert" /\ Ev.lines = log /\ UNCHANGED svars
TraceNext == /\ l <= Len(TraceLog) /\ l' = l + 1
             /\ \/ Begin \/ DoInit \/ DoCreate \/ DoRemove \/ DoStrengthen \/ DoList \/ DoCert
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
            /\ TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
