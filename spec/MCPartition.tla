----------------------------- MODULE MCPartition -----------------------------
(* Partition refinement with lossy compression: entries which can no longer   *)
(* be part of a conjecture are dropped at arbitrary times and never observed  *)
(* again.  The conjectures are those of the complete observation.             *)
EXTENDS Conjectures
CONSTANTS NV, MaxRounds
VARIABLES full, kept, bb, since
vars == <<full, kept, bb, since>>
V == 1..NV
Obs == {<<b, p>> : b \in {0, 1}, p \in {{}, {1}}}
Init == full = [v \in V |-> <<>>] /\ kept = V /\ bb = [v \in V |-> -1] /\ since = full
Round == Len(full[1])
Update == /\ Round < MaxRounds
          /\ \E o \in [V -> Obs] :
               /\ full' = [v \in V |-> Append(full[v], o[v])]
               /\ since' = [v \in V |-> IF v \in kept THEN Append(since[v], o[v]) ELSE since[v]]
               \* backbone value: -1 nothing seen, 0/1 constant so far, 2 not constant
               /\ bb' = [v \in V |-> IF v \notin kept THEN bb[v]
                                     ELSE IF o[v][2] # {} \/ bb[v] = 1 - o[v][1] \/ bb[v] = 2 THEN 2 ELSE o[v][1]]
          /\ UNCHANGED kept
Compress == /\ Round > 0
            /\ kept' = {v \in kept : bb[v] \in {0, 1} \/ \E u \in kept \ {v} : Related(since[u], since[v])}
            /\ UNCHANGED <<full, bb, since>>
Next == Update \/ Compress
Spec == Init /\ [][Next]_vars
KeptCol == [v \in kept |-> since[v]]
ExactBackbones == Round > 0 => Backbones(full) = {v \in kept : bb[v] = 0} \cup {-v : v \in {u \in kept : bb[u] = 1}}
ExactEquivalences == Round > 0 => Equivalences(full) = Equivalences(KeptCol)
\* non-vacuity
SomeDropped == ~(kept # V /\ Equivalences(full) # {})
=============================================================================
