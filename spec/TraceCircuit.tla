----------------------------- MODULE TraceCircuit ----------------------------
(* Accepts what was derived from a recognized circuit: its traversal, which    *)
(* conjectures are given up when, whether it looks like a miter, and advice.   *)
EXTENDS Circuit, Json, IOUtils
VARIABLES l, g, inp, roots, given, entries
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<l, g, inp, roots, given, entries>>
Ev == TraceLog[l]
None == [limits |-> <<>>, cls |-> <<>>, bbs |-> {}]
TraceInit == l = 1 /\ g = <<>> /\ inp = <<>> /\ roots = {} /\ given = None /\ entries = <<>>
Begin == Ev.e = "begin" /\ g' = <<>> /\ inp' = <<>> /\ roots' = {} /\ given' = None /\ entries' = <<>>
DoCnf == Ev.e = "cnf" /\ UNCHANGED <<g, inp, roots, given, entries>>
VarsIn(s) == {Abs(x) : x \in ToClause(s)}
DoGates == /\ Ev.e = "gates"
           /\ g' = TLCEval([v \in {Abs(Ev.gates[i].out) : i \in DOMAIN Ev.gates} |-> Ev.gates[CHOOSE i \in DOMAIN Ev.gates : Abs(Ev.gates[i].out) = v]])
           /\ inp' = TLCEval([v \in {Abs(Ev.gates[i].out) : i \in DOMAIN Ev.gates} |-> VarsIn(Ev.gates[CHOOSE i \in DOMAIN Ev.gates : Abs(Ev.gates[i].out) = v].inp)])
           /\ roots' = UNION {VarsIn(Ev.roots[i]) : i \in DOMAIN Ev.roots}
           /\ UNCHANGED <<given, entries>>
NonMono == {v \in DOMAIN g : ~g[v].mono}
RootGates == roots \cap DOMAIN g
DoWalk == /\ Ev.e = "walk" /\ Ev.over
          /\ LET P == IF Ev.prune THEN NonMono ELSE {}
                 S == Reach(inp, roots, P)
             IN (/\ Topological(inp, Ev.back, S) /\ Discovery(inp, Ev.first, S, RootGates)
                 /\ Distinct(Ev.inputs) /\ ToClause(Ev.inputs) = InputsOf(inp, S)) = TRUE
          /\ UNCHANGED <<g, inp, roots, given, entries>>
DoTopo == /\ Ev.e = "topo" /\ Topological(inp, Ev.order, Reach(inp, roots, {})) = TRUE
          /\ UNCHANGED <<g, inp, roots, given, entries>>
\* --- the shape of a miter: what is left when everything behind a gate whose ---
\* --- output is used in both polarities is cut off ends in XORs              ---
S1 == Reach(inp, roots, NonMono)
Border == {v \in S1 : \E i \in inp[v] : i \notin S1}
MetNonMono == \E v \in NonMono : v \in roots \/ \E u \in S1 : v \in inp[u]
Occurs(x) == FoldSet(LAMBDA v, a : a + Cardinality({i \in DOMAIN g[v].inp : g[v].inp[i] = x}), 0, Border)
InpVars == UNION {inp[v] : v \in Border}
AigXors == \A v \in InpVars : Occurs(v) = 1 /\ Occurs(-v) = 1
IsXor(v) == /\ Len(g[v].fwd) = 2 /\ \A i \in 1..2 : Len(g[v].fwd[i]) = 3
            /\ Cardinality(ToClause(g[v].fwd[1]) \cup ToClause(g[v].fwd[2])) = 5
Xors == (\A v \in Border : IsXor(v)) /\ \A v, w \in Border : v # w => inp[v] \cap inp[w] = {}
LooksLikeMiter == Border # {} /\ MetNonMono /\ (\A v \in Border : Cardinality(inp[v]) = 2) /\ (AigXors \/ Xors)
DoMiter == /\ Ev.e = "miter" /\ Ev.yes = LooksLikeMiter
           /\ UNCHANGED <<g, inp, roots, given, entries>>
\* --- giving up conjectures by the number of inputs -------------------------
DoIdc == /\ Ev.e = "idc" /\ given' = [limits |-> Ev.limits, cls |-> [i \in DOMAIN Ev.classes |-> ToClause(Ev.classes[i])], bbs |-> ToClause(Ev.bbs)]
         /\ UNCHANGED <<g, inp, roots, entries>>
Gone(k) == {v \in Reach(inp, roots, {}) : StepOf(Cardinality(Support(inp, v)), given.limits) = k}
Without(C, V) == {x \in C : Abs(x) \notin V}
DoStep == /\ Ev.e = "step"
          /\ LET V == Gone(Ev.k) IN
             /\ (/\ ToClause(Ev.probe) = V /\ Distinct(Ev.probe)
                 /\ ToClause(Ev.gone) = {x \in given.bbs : Abs(x) \in V}
                 /\ ToClause(Ev.left) = Without(given.bbs, V) /\ Distinct(Ev.left)
                 /\ Len(Ev.classes) = Len(given.cls)
                 /\ \A i \in DOMAIN Ev.classes : LET C == Without(given.cls[i], V) IN
                       Distinct(Ev.classes[i]) /\ ToClause(Ev.classes[i]) = IF Cardinality(C) < 2 THEN {} ELSE C) = TRUE
             /\ given' = [given EXCEPT !.bbs = Without(given.bbs, V), !.cls = [i \in DOMAIN given.cls |-> Without(given.cls[i], V)]]
          /\ UNCHANGED <<g, inp, roots, entries>>
\* --- advice for branching from conjectures ----------------------------------
Small == {i \in DOMAIN Ev.classes : Len(Ev.classes[i]) <= Ev.size}
Advised(v) == LET own == {i \in Small : v \in VarsIn(Ev.classes[i])} IN
              IF v \in VarsIn(Ev.bbs) THEN [ls |-> {x \in ToClause(Ev.bbs) : Abs(x) = v}, bb |-> TRUE]
              ELSE IF own = {} THEN [ls |-> {}, bb |-> FALSE]
              ELSE LET C == ToClause(Ev.classes[CHOOSE i \in own : TRUE]) IN \* when the key is false, the others of its class have the value of their complement
                   [ls |-> IF -v \in C THEN C \ {-v} ELSE Neg(C \ {v}), bb |-> FALSE]
SameEntry(r, e) == Distinct(r.ls) /\ ToClause(r.ls) = e.ls /\ (e.ls # {} => r.bb = e.bb)
Budgets == Ev.budget => \A v \in DOMAIN Ev.entries : /\ Len(Ev.bud[v]) = Len(Ev.entries[v].ls)
                                                     /\ \A i \in DOMAIN Ev.bud[v] : Ev.bud[v][i] = Abs(Ev.entries[v].ls[i]) + 100
DoAdvice == /\ Ev.e = "advice"
            /\ LET E == [v \in 1..Ev.n |-> Advised(v)] IN
               /\ (Len(Ev.entries) = Ev.n /\ (\A v \in 1..Ev.n : SameEntry(Ev.entries[v], E[v])) /\ Budgets) = TRUE
               /\ entries' = TLCEval(E)
            /\ UNCHANGED <<g, inp, roots, given>>
Filtered(v, V, only) == LET e == entries[v] IN
                        IF only /\ ~e.bb THEN e ELSE [e EXCEPT !.ls = IF v \in V THEN {} ELSE Without(e.ls, V)]
DoFilter == /\ Ev.e = "filter"
            /\ LET E == [v \in DOMAIN entries |-> Filtered(v, ToClause(Ev.vars), Ev.only)] IN
               /\ (Len(Ev.entries) = Cardinality(DOMAIN E) /\ (\A v \in DOMAIN E : SameEntry(Ev.entries[v], E[v])) /\ Budgets) = TRUE
               /\ entries' = TLCEval(E)
            /\ UNCHANGED <<g, inp, roots, given>>
TraceNext == /\ l <= Len(TraceLog) /\ l' = l + 1
             /\ \/ Begin \/ DoCnf \/ DoGates \/ DoWalk \/ DoTopo \/ DoMiter \/ DoIdc \/ DoStep \/ DoAdvice \/ DoFilter
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
            /\ TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
