------------------------------ MODULE MCBranch ------------------------------
(* The decision queue under decisions, propagation, backjumps and restarts:    *)
(* variables leave it when they are drawn, assigned ones are dropped, and       *)
(* those that a backjump frees are put back.  No unassigned variable is ever    *)
(* lost, although advised decisions do not come from the queue; hence an empty  *)
(* answer means that all variables are assigned.  Budgets are never exceeded.   *)
EXTENDS Branch, FiniteSetsExt
CONSTANTS N, Budget
VARIABLES trail,    \* sequence of levels, each a sequence of literals; the first is level 0
          queue, phase, used, act, last
vars == <<trail, queue, phase, used, act, last>>
V == 1..N
Assigned == {BAbs(x) : x \in UNION {Elems(trail[k]) : k \in 1..Len(trail)}}
Un == V \ Assigned
Top == {v \in Un : \A w \in Un : act[v] >= act[w]}
Init == trail = <<<<>>>> /\ queue = V /\ phase \in [V -> {-1, 1}] /\ used = <<>> /\ act = [v \in V |-> 0] /\ last = <<>>
Cur == trail[Len(trail)]
Advice(x) == IF Len(trail) = 1 THEN {} ELSE Usable({{1, 2}}, {}, 3, used, Budget, Un, x)
Src == Sources(Cur, Advice)
Advised == /\ Src # {} /\ LET x == Cur[Least(Src)] IN \E y \in Advice(x) :
                   /\ trail' = Append(trail, <<y>>) /\ used' = Bump(used, <<BAbs(x), BAbs(y)>>) /\ last' = <<y>>
           /\ UNCHANGED <<queue, phase, act>>
\* all that is above the drawn variable is dropped with it
Drawn == /\ Src = {} /\ \E v \in queue \cap Top :
              LET dropped == {w \in queue : w = v \/ (w \in Assigned /\ act[w] > act[v])}
                  rest == {w \in queue : w \in Assigned /\ act[w] = act[v]}
              IN \E E \in SUBSET rest : /\ queue' = queue \ (dropped \cup E)
                                        /\ trail' = Append(trail, <<phase[v] * v>>) /\ last' = <<phase[v] * v>>
         /\ UNCHANGED <<phase, used, act>>
Nothing == Src = {} /\ queue \cap Un = {} /\ last # <<0>> /\ last' = <<0>> /\ queue' = {} /\ UNCHANGED <<trail, phase, used, act>>
Imply == \E v \in Un : \E x \in {v, -v} : trail' = [trail EXCEPT ![Len(trail)] = Append(@, x)] /\ last' = <<>> /\ UNCHANGED <<queue, phase, used, act>>
Conflict == Len(trail) > 1 /\ \E b \in 1..Len(trail) - 1 : \E B \in SUBSET Assigned :
               LET freed == UNION {Elems(trail[k]) : k \in b + 1..Len(trail)} IN
               /\ trail' = SubSeq(trail, 1, b) /\ queue' = queue \cup {BAbs(x) : x \in freed}
               /\ phase' = [v \in V |-> IF v \in freed THEN 1 ELSE IF -v \in freed THEN -1 ELSE phase[v]]
               /\ act' = [v \in V |-> IF v \in B /\ act[v] < 1 THEN act[v] + 1 ELSE act[v]] /\ last' = <<>> /\ UNCHANGED used
Restart == Len(trail) > 1 /\ trail' = SubSeq(trail, 1, 1) /\ queue' = V /\ last' = <<>> /\ UNCHANGED <<phase, used, act>>
Next == Advised \/ Drawn \/ Nothing \/ Imply \/ Conflict \/ Restart
Spec == Init /\ [][Next]_vars
NoneLost == Un \subseteq queue
CanDraw == Un # {} => (Src # {} \/ queue \cap Top # {})
SatIsTotal == last = <<0>> => Un = {}
Budgeted == Budget = 0 \/ \A k \in DOMAIN used : used[k] <= Budget
OnceEach == Cardinality(Assigned) = FoldSet(LAMBDA k, n : n + Len(trail[k]), 0, 1..Len(trail))
=============================================================================
