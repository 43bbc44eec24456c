---------------------------- MODULE TraceProblem ----------------------------
(* Histories of the real problem store and of its fingerprints.                 *)
EXTENDS Problem, Json, IOUtils
VARIABLES l, prob
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
TraceInit == l = 1 /\ prob = Empty
Shown(p) == Ev.n = p.n /\ Ev.cs = p.cs
Line(c) == FlattenSeq([j \in 1..Len(c) |-> DecInt(c[j]) \o <<32>>]) \o <<48, 10>>
Dimacs(p) == <<112, 32, 99, 110, 102, 32>> \o Dec(p.n) \o <<32>> \o Dec(Len(p.cs)) \o <<10>> \o FlattenSeq([i \in 1..Len(p.cs) |-> Line(p.cs[i])])
Begin   == Ev.e = "begin" /\ prob' = Empty
DoRead  == Ev.e = "read" /\ prob' = ReadAll(prob, Ev.given) /\ (Shown(TLCEval(prob')) = TRUE)
DoNew   == Ev.e = "new" /\ Ev.v = prob.n /\ prob' = [prob EXCEPT !.n = @ + 1]
DoNorm  == Ev.e = "normalize" /\ prob' = Normalized(prob) /\ (Shown(TLCEval(prob')) = TRUE)
DoCheck == Ev.e = "check" /\ (Ev.ok = Confirms(ToClause(Ev.m), prob)) /\ UNCHANGED prob
DoPrint == Ev.e = "print" /\ (Ev.text = Dimacs(prob)) /\ UNCHANGED prob
DoHash  == Ev.e = "hash" /\ (Ev.gbd = GbdHash(prob.cs)) /\ (Ev.degree = DegreeHash(prob.cs)) /\ UNCHANGED prob
DoMd5   == Ev.e = "md5" /\ (Ev.digest = Digest(FlattenSeq(Ev.chunks))) /\ UNCHANGED prob
TraceNext == l <= Len(TraceLog) /\ l' = l + 1 /\ (Begin \/ DoRead \/ DoNew \/ DoNorm \/ DoCheck \/ DoPrint \/ DoHash \/ DoMd5)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, prob>>
Accepted == /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
            /\ TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
