------------------------------ MODULE TraceSim ------------------------------
(* Accepts the recorded behaviour of random simulation: gate order and        *)
(* propagation, partitions and conjectures, filters.                          *)
EXTENDS Conjectures, Json, IOUtils
VARIABLES l, gates, col, known, last
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<l, gates, col, known, last>>
Ev == TraceLog[l]
None == [eq |-> <<>>, bb |-> <<>>]
TraceInit == l = 1 /\ gates = <<>> /\ col = <<>> /\ known = FALSE /\ last = None
Begin == Ev.e = "begin" /\ gates' = <<>> /\ col' = <<>> /\ known' = FALSE /\ last' = None
DoCnf == Ev.e = "cnf" /\ UNCHANGED <<gates, col, known, last>>
DoGates == Ev.e = "gates" /\ gates' = Ev.gates /\ UNCHANGED <<col, known, last>>
GateVars == {Abs(gates[i].out) : i \in DOMAIN gates}
NestedVars == {Abs(gates[i].out) : i \in {j \in DOMAIN gates : gates[j].nested}}
GateAt(v) == gates[CHOOSE i \in DOMAIN gates : Abs(gates[i].out) = v]
Distinct(s) == Cardinality(ToClause(s)) = Len(s)
\* the simulated gates: all, or those which the filter leaves over
Simulated(f) == IF ~f THEN GateVars ELSE {v \in NestedVars : \A x \in ToClause(GateAt(v).inp) : Abs(x) \in GateVars => Abs(x) \in NestedVars}
ClausesOf(S) == UNION {ToFormula(GateAt(v).fwd) \cup ToFormula(GateAt(v).bwd) : v \in S}
OutVars == {Abs(Ev.outs[i]) : i \in DOMAIN Ev.outs}
Column(v, P) == [q \in 1..P |-> <<IF Ev.vals[q][v] < 0 THEN 1 ELSE 0, {}>>]
DoOrder == /\ Ev.e = "order"
           /\ IF Ev.k > 5 THEN UNCHANGED <<gates, col, known, last>>
              ELSE /\ Ev.same /\ Ev.zero      \* vectors start with zeroes, and only outputs change
                   /\ Distinct(Ev.inputs) /\ Cardinality(OutVars) = Len(Ev.outs)
                   /\ OutVars = Simulated(Ev.filter)
                   /\ ToClause(Ev.inputs) \cap GateVars = {}
                   \* simulated valuations satisfy every clause of the simulated gates
                   /\ LET F == ClausesOf(OutVars) IN \A q \in DOMAIN Ev.vals : Satisfies(ToClause(Ev.vals[q]), F)
                   /\ IF Ev.filter THEN UNCHANGED <<col, known>>
                      ELSE /\ col' = TLCEval([v \in OutVars |-> Column(v, Len(Ev.vals) \div 2)])
                           /\ known' = (ToClause(Ev.free) \cap VarsOf(ClausesOf(OutVars)) = {})
                   /\ UNCHANGED <<gates, last>>
DoSimulate == /\ Ev.e = "simulate"
              /\ known => /\ Describes(Ev.eq, Equivalences(col))
                          /\ ToClause(Ev.bb) = Backbones(col) /\ Distinct(Ev.bb)
              /\ last' = [eq |-> Ev.eq, bb |-> Ev.bb] /\ UNCHANGED <<gates, col, known>>
DoPartition == Ev.e = "partition" /\ col' = [v \in ToClause(Ev.vars) |-> <<>>] /\ UNCHANGED <<gates, known, last>>
DoUpdate == /\ Ev.e = "update"
            /\ LET S == [v \in DOMAIN col |-> LET r == Ev.sig[CHOOSE i \in DOMAIN Ev.sig : Ev.sig[i].v = v] IN <<r.base, ToClause(r.pos)>>]
               IN col' = TLCEval([v \in DOMAIN col |-> Append(col[v], S[v])])
            /\ UNCHANGED <<gates, known, last>>
Vs == {Abs(x) : x \in UNION {ToClause(Ev.eq[i]) : i \in DOMAIN Ev.eq} \cup ToClause(Ev.bb)}
DoConjectures == /\ Ev.e = "conjectures"
                 /\ Describes(Ev.eq, Equivalences(col))
                 /\ ToClause(Ev.bb) = Backbones(col) /\ Distinct(Ev.bb)
                 /\ Ev.pairs = FoldSet(LAMBDA i, a : a + (Len(Ev.eq[i]) * (Len(Ev.eq[i]) - 1)) \div 2, 0, DOMAIN Ev.eq)
                 /\ Ev.max = IF Vs = {} THEN 1 ELSE Max(Vs)
                 /\ last' = [eq |-> Ev.eq, bb |-> Ev.bb] /\ UNCHANGED <<gates, col, known>>
DoFilter == /\ Ev.e = "filter"
            /\ IF Ev.dropbb THEN Ev.bb = <<>> /\ Ev.eq = last.eq
               ELSE Ev.bb = last.bb /\ Ev.eq = SelectSeq(last.eq, LAMBDA c : Len(c) <= Ev.size)
            /\ UNCHANGED <<gates, col, known, last>>
TraceNext == /\ l <= Len(TraceLog) /\ l' = l + 1
             /\ \/ Begin \/ DoCnf \/ DoGates \/ DoOrder \/ DoSimulate \/ DoPartition \/ DoUpdate \/ DoConjectures \/ DoFilter
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
            /\ TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
