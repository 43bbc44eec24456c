------------------------------ MODULE MCCircuit -----------------------------
(* Traversal with an explicit stack, then the numbers of inputs pushed through *)
(* the gates with sets which are given up above a limit; on all circuits with  *)
(* NG gates over NI inputs, all roots, all sets of gates which are not entered,*)
(* and in every order of the roots and inputs.                                 *)
EXTENDS Circuit
CONSTANTS NI, NG, Cap
VARIABLES inp, roots, pruned, todo, stack, first, back, seen, deps, over, k
vars == <<inp, roots, pruned, todo, stack, first, back, seen, deps, over, k>>
Vars == 1..(NI + NG)
Gate == (NI + 1)..(NI + NG)
Init == /\ inp \in [Gate -> SUBSET Vars] /\ (\A g \in Gate : inp[g] # {} /\ \A v \in inp[g] : v < g)
        /\ roots \in SUBSET Gate /\ pruned \in SUBSET Gate
        /\ todo = roots \ pruned /\ stack = <<>> /\ first = <<>> /\ back = <<>> /\ seen = <<>>
        /\ deps = [g \in Gate |-> {}] /\ over = {} /\ k = 0
\* (todo) what is left to be pushed: roots, then the inputs of the gate just entered
Push == /\ k = 0 /\ todo # {} /\ \E v \in todo :
           /\ todo' = todo \ {v}
           /\ IF v \notin Gate THEN seen' = IF v \in ToClause(seen) THEN seen ELSE Append(seen, v)
              ELSE UNCHANGED seen
           /\ stack' = IF v \in Gate /\ v \notin ToClause(first) /\ v \notin pruned THEN Append(stack, <<v, FALSE>>) ELSE stack
        /\ UNCHANGED <<inp, roots, pruned, first, back, deps, over, k>>
Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
Enter == /\ k = 0 /\ todo = {} /\ stack # <<>> /\ ~Top[2] /\ Top[1] \notin ToClause(first)
         /\ first' = Append(first, Top[1]) /\ stack' = Append(Rest, <<Top[1], TRUE>>) /\ todo' = inp[Top[1]]
         /\ UNCHANGED <<inp, roots, pruned, back, seen, deps, over, k>>
Again == /\ k = 0 /\ todo = {} /\ stack # <<>> /\ ~Top[2] /\ Top[1] \in ToClause(first)
         /\ stack' = Rest /\ UNCHANGED <<inp, roots, pruned, todo, first, back, seen, deps, over, k>>
Leave == /\ k = 0 /\ todo = {} /\ stack # <<>> /\ Top[2]
         /\ back' = Append(back, Top[1]) /\ stack' = Rest
         /\ UNCHANGED <<inp, roots, pruned, todo, first, seen, deps, over, k>>
\* in topological order (of the complete traversal): collect, give up, hand over
Count == /\ pruned = {} /\ todo = {} /\ stack = <<>> /\ k < Len(back) /\ k' = k + 1
         /\ LET g == back[k + 1]
                d == deps[g] \cup (inp[g] \ Gate)
                o == g \in over \/ Cardinality(d) > Cap
                up == {h \in ToClause(back) : g \in inp[h]}
            IN /\ deps' = [h \in Gate |-> IF h = g THEN d ELSE IF h \in up /\ ~o THEN deps[h] \cup d ELSE deps[h]]
               /\ over' = IF o THEN over \cup {g} \cup up ELSE over
         /\ UNCHANGED <<inp, roots, pruned, todo, stack, first, back, seen>>
Next == Push \/ Enter \/ Again \/ Leave \/ Count
Spec == Init /\ [][Next]_vars
Over == todo = {} /\ stack = <<>>
S == Reach(inp, roots, pruned)
Walked == Over => /\ Topological(inp, back, S) /\ Discovery(inp, first, S, roots)
                  /\ Distinct(seen) /\ ToClause(seen) = InputsOf(inp, S)
Prefix == Topological(inp, back, ToClause(back)) /\ ToClause(back) \subseteq ToClause(first) /\ ToClause(first) \subseteq S
Counted == \A i \in 1..k : LET g == back[i] IN IF g \in over THEN Cardinality(Support(inp, g)) > Cap ELSE deps[g] = Support(inp, g)
=============================================================================
