----------------------------- MODULE MCOptions -----------------------------
(* All short arguments over a small alphabet, against options whose names     *)
(* are prefixes of each other.                                                *)
EXTENDS Options
CONSTANTS MaxLen, MaxArgs, Alphabet
VARIABLES st, n, prev
vars == <<st, n, prev>>
o(name, kind, lo, hi, li, hinc) == [name |-> name, kind |-> kind, lo |-> lo, hi |-> hi, loinc |-> li, hiinc |-> hinc]
T == << o(<<97>>, "int", 0, 5, TRUE, TRUE), o(<<97, 97>>, "bool", 0, 0, TRUE, TRUE), o(<<110>>, "double", 0, 10000, FALSE, TRUE), o(<<97, 110>>, "string", 0, 0, TRUE, TRUE) >>
Strings == UNION {[1..k -> Alphabet] : k \in 0..MaxLen}
Init == st = [vals |-> <<1, FALSE, 5000, <<>>>>, rest |-> <<>>, end |-> ""] /\ n = 0 /\ prev = st
Step == /\ n < MaxArgs /\ n' = n + 1 /\ prev' = st
        /\ \E a \in Strings : st' = Arg(T, st, a, TRUE)
Next == Step
Spec == Init /\ [][Next]_vars
InRange == \A i \in DOMAIN T : T[i].kind \in {"int", "double"} => Within(T[i], st.vals[i])
OneAtATime == Cardinality({i \in DOMAIN T : st.vals[i] # prev.vals[i]}) + (Len(st.rest) - Len(prev.rest)) <= 1
Stops == prev.end # "" => st = prev
FilesOnly == \A i \in DOMAIN st.rest : st.rest[i] = <<>> \/ st.rest[i][1] # Dash
Unambiguous == \A a \in Strings : Cardinality({i \in DOMAIN T : Take(T[i], a)[1] # "no"}) <= 1
ASSUME Unambiguous
=============================================================================
