----------------------------- MODULE GenIpasir ------------------------------
(* Random walks through the input side of the interface; each finished walk is *)
(* printed as one JSON line and replayed against the real solver.              *)
EXTENDS Ipasir, Json, SequencesExt
CONSTANTS NV, MaxLen, Depth
VARIABLES hist
gvars == <<ivars, hist>>
Lits == (1..NV) \cup {-v : v \in 1..NV}
RandomClause == LET k == RandomElement(1..MaxLen) IN {RandomElement(Lits) : i \in 1..k}
AsSeq(S) == SetToSeq(S)
Op(o, a) == hist' = Append(hist, <<o, a>>)
GInit == IpasirInit /\ hist = <<>>
GAdd == Len(hist) < Depth /\ LET c == {RandomElement(Lits)} \cup (IF RandomElement(1..4) > 1 THEN {RandomElement(Lits)} ELSE {}) \cup (IF RandomElement(1..2) > 1 THEN {RandomElement(Lits)} ELSE {})
        IN Add(c) /\ Op("add", AsSeq(c))
GAssume == Len(hist) < Depth /\ LET x == RandomElement(Lits) IN Assume(x) /\ Op("assume", <<x>>)
GLearn == Len(hist) < Depth /\ LET n == RandomElement({1, 2, 3, 100}) IN SetLearn(n) /\ Op("learn", <<n>>)
GTerm == Len(hist) < Depth /\ LET n == RandomElement({-1, 0, 1, 2}) IN SetTerm(n) /\ Op("term", <<n>>)
\* the outcome does not matter for generating inputs
GSolve == Len(hist) < Depth /\ Len(hist) > 2 /\ hist[Len(hist)][1] # "solve" /\ SolveUpd(0, {}, {}, {}) /\ Op("solve", <<>>)
GDone == Len(hist) = Depth /\ PrintT("HIST " \o ToJson(hist)) /\ Op("end", <<>>) /\ UNCHANGED ivars
GNext == GAdd \/ (RandomElement(1..3) = 1 /\ GAssume) \/ (RandomElement(1..4) = 1 /\ GSolve) \/ (RandomElement(1..12) = 1 /\ GLearn) \/ (RandomElement(1..12) = 1 /\ GTerm) \/ GDone
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
