----------------------------- MODULE TracePolicy ----------------------------
(* Accepts recorded runs of the restart and reduction policies, of their        *)
(* containers, and of the factory.                                             *)
EXTENDS Policy, Json, IOUtils
VARIABLES l, p, st, red, heap, queue
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<l, p, st, red, heap, queue>>
Ev == TraceLog[l]
Zero == [lbds |-> <<>>, sizes |-> <<>>, sum |-> 0, n |-> 0]
NoRed == [calls |-> 0, nb |-> 0, inc |-> 0, keep |-> 0, median |-> FALSE]
TraceInit == l = 1 /\ p = <<>> /\ st = Zero /\ red = NoRed /\ heap = <<>> /\ queue = <<>>
Begin == Ev.e = "begin" /\ p' = <<>> /\ st' = Zero /\ red' = NoRed /\ heap' = <<>> /\ queue' = <<>>
\* restarts
DoRestart == Ev.e = "restart" /\ p' = Ev /\ st' = Zero /\ UNCHANGED <<red, heap, queue>>
DoConflict == Ev.e = "conflict" /\ st' \in AfterConflict(st, p, Ev.lbd, Ev.size) /\ UNCHANGED <<p, red, heap, queue>>
DoSkip == Ev.e = "skip" /\ st' = [st EXCEPT !.n = @ + Ev.k] /\ UNCHANGED <<p, red, heap, queue>>
DoTrigger == /\ Ev.e = "trigger" /\ (IF Ev.r THEN MayTrigger(st, p) ELSE ~MustTrigger(st, p)) = TRUE
             /\ Ev.more = (IF Ev.r THEN 1 ELSE 0)
             /\ st' = (IF Ev.r THEN [st EXCEPT !.lbds = <<>>] ELSE st) /\ UNCHANGED <<p, red, heap, queue>>
\* reductions
DoReduce == Ev.e = "reduce" /\ red' = [calls |-> 0, nb |-> Ev.first, inc |-> Ev.inc, keep |-> Ev.keep, median |-> Ev.median] /\ UNCHANGED <<p, st, heap, queue>>
DoReduced == /\ Ev.e = "reduced" /\ Cardinality(Els(Ev.old)) = Len(Ev.old) /\ Cardinality(Els(Ev.new)) = Len(Ev.new)
             /\ ReducedOk(Els(Ev.old), Els(Ev.new), red.keep, red.median) = TRUE
             /\ red' = [red EXCEPT !.calls = @ + (IF Cardinality(Cand(Els(Ev.old), red.keep)) > 1 THEN 1 ELSE 0)]
             /\ Ev.calls = red'.calls /\ UNCHANGED <<p, st, heap, queue>>
\* the more calls there were, the more conflicts have to come before the next
DoDue == /\ Ev.e = "due" /\ Ev.r = (red.calls * red.nb <= st.n)
         /\ red' = (IF Ev.r THEN [red EXCEPT !.nb = @ + red.inc] ELSE red) /\ UNCHANGED <<p, st, heap, queue>>
\* priority queue: heap = [w |-> weights, el |-> elements]
DoHeap == Ev.e = "heap" /\ heap' = [w |-> [v \in 0..Ev.n - 1 |-> 0], el |-> {}] /\ UNCHANGED <<p, st, red, queue>>
DoH == /\ Ev.e = "h"
       /\ heap' = CASE Ev.o = "w" -> [heap EXCEPT !.w[Ev.a] = Ev.b]
                    [] Ev.o = "i" -> [heap EXCEPT !.el = @ \cup {Ev.a}]
                    [] Ev.o = "u" -> [heap EXCEPT !.w[Ev.a] = Ev.b, !.el = @ \cup {Ev.a}]
                    [] Ev.o = "m" -> [heap EXCEPT !.el = @ \ {Ev.r}]
                    [] Ev.o = "b" -> [heap EXCEPT !.el = Els(Ev.ns)]
                    [] Ev.o = "x" -> [heap EXCEPT !.el = {}]
       /\ (Ev.o = "m" => IF heap.el = {} THEN Ev.r = -1 ELSE Ev.r \in heap.el /\ \A x \in heap.el : heap.w[Ev.r] <= heap.w[x]) = TRUE
       /\ Els(Ev.el) = heap'.el /\ Ev.size = Cardinality(heap'.el) /\ Ev.none = (heap'.el = {})
       /\ UNCHANGED <<p, st, red, queue>>
\* bounded queue: queue = [n |-> capacity, s |-> entries]
DoQueue == Ev.e = "queue" /\ queue' = [n |-> Ev.n, s |-> <<>>] /\ UNCHANGED <<p, st, red, heap>>
DoQ == /\ Ev.e \in {"p", "f"} /\ queue' = [queue EXCEPT !.s = IF Ev.e = "p" THEN Push(@, queue.n, Ev.x) ELSE <<>>]
       /\ Ev.sum = Total(queue'.s) /\ Ev.size = Len(queue'.s) /\ Ev.full = (Len(queue'.s) = queue.n)
       /\ Ev.avg = (IF queue'.s = <<>> THEN 0 ELSE Avg(queue'.s))
       /\ UNCHANGED <<p, st, red, heap>>
\* factory
Wanted == IF Ev.lrb THEN "lrb" ELSE IF Ev.rsil THEN Ev.mode \o (IF Ev.size = 2 THEN "2" ELSE "3") ELSE IF Ev.vsidsc THEN "vsidsc" ELSE "vsids"
DoBuild == Ev.e = "build" /\ Ev.got = Wanted /\ Ev.gotstatic = Ev.static /\ UNCHANGED <<p, st, red, heap, queue>>
TraceNext == l <= Len(TraceLog) /\ l' = l + 1 /\ (Begin \/ DoRestart \/ DoConflict \/ DoSkip \/ DoTrigger \/ DoReduce \/ DoReduced \/ DoDue \/ DoHeap \/ DoH \/ DoQueue \/ DoQ \/ DoBuild)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
            /\ TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
