----------------------------- MODULE MCPortfolio -----------------------------
(* The program as a portfolio: the main thread starts workers one by one      *)
(* until a result is there, waits, stops and joins the others and reports.    *)
(* Each worker has its own certificate; publishing a result is not atomic.    *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS W, MayInterrupt
VARIABLES truth, main, spawned, w, local, lock, result, solver, interrupted, user, cert, out
vars == <<truth, main, spawned, w, local, lock, result, solver, interrupted, user, cert, out>>
Ids == 1..W
Init == /\ truth \in {10, 20} /\ main = "start" /\ spawned = 0
        /\ w = [i \in Ids |-> "idle"] /\ local = [i \in Ids |-> 0] /\ lock = 0
        /\ result = 0 /\ solver = 0 /\ interrupted = FALSE /\ user = FALSE
        /\ cert = 0 /\ out = <<>>
Spawn == /\ main = "start" /\ spawned < W /\ result = 0
         /\ spawned' = spawned + 1 /\ w' = [w EXCEPT ![spawned + 1] = "run"]
         /\ UNCHANGED <<truth, main, local, lock, result, solver, interrupted, user, cert, out>>
Started == /\ main = "start" /\ (spawned = W \/ result # 0) /\ main' = "wait"
           /\ UNCHANGED <<truth, spawned, w, local, lock, result, solver, interrupted, user, cert, out>>
Answer(i) == /\ w[i] = "run" /\ w' = [w EXCEPT ![i] = "lock"] /\ local' = [local EXCEPT ![i] = truth]
             /\ UNCHANGED <<truth, main, spawned, lock, result, solver, interrupted, user, cert, out>>
Stop(i) == /\ w[i] = "run" /\ interrupted /\ w' = [w EXCEPT ![i] = "lock"]
           /\ UNCHANGED <<truth, main, spawned, local, lock, result, solver, interrupted, user, cert, out>>
Lock(i) == /\ w[i] = "lock" /\ lock = 0 /\ lock' = i
           /\ w' = [w EXCEPT ![i] = IF result = 0 /\ local[i] # 0 THEN "pub1" ELSE "unlock"]
           /\ UNCHANGED <<truth, main, spawned, local, result, solver, interrupted, user, cert, out>>
Pub1(i) == /\ w[i] = "pub1" /\ solver' = i /\ w' = [w EXCEPT ![i] = "pub2"]
           /\ UNCHANGED <<truth, main, spawned, local, lock, result, interrupted, user, cert, out>>
Pub2(i) == /\ w[i] = "pub2" /\ result' = local[i] /\ w' = [w EXCEPT ![i] = "unlock"]
           /\ UNCHANGED <<truth, main, spawned, local, lock, solver, interrupted, user, cert, out>>
Unlock(i) == /\ w[i] = "unlock" /\ lock' = 0 /\ w' = [w EXCEPT ![i] = "ended"]
             /\ UNCHANGED <<truth, main, spawned, local, result, solver, interrupted, user, cert, out>>
UserInterrupt == /\ MayInterrupt /\ ~user /\ main = "wait" /\ user' = TRUE /\ interrupted' = TRUE
                 /\ UNCHANGED <<truth, main, spawned, w, local, lock, result, solver, cert, out>>
Poll == /\ main = "wait" /\ (result # 0 \/ interrupted) /\ main' = "join" /\ interrupted' = TRUE
        /\ UNCHANGED <<truth, spawned, w, local, lock, result, solver, user, cert, out>>
Join == /\ main = "join" /\ \A i \in 1..spawned : w[i] = "ended" /\ main' = "report" /\ cert' = solver
        /\ UNCHANGED <<truth, spawned, w, local, lock, result, solver, interrupted, user, out>>
Report == /\ main = "report" /\ main' = "done" /\ out' = <<[s |-> result, by |-> solver, cert |-> cert]>>
          /\ UNCHANGED <<truth, spawned, w, local, lock, result, solver, interrupted, user, cert>>
Worker == \E i \in Ids : Answer(i) \/ Stop(i) \/ Lock(i) \/ Pub1(i) \/ Pub2(i) \/ Unlock(i)
Main == Spawn \/ Started \/ Poll \/ Join \/ Report
Next == Main \/ Worker \/ UserInterrupt
Fair == /\ WF_vars(Main) /\ \A i \in Ids : WF_vars(Stop(i) \/ Lock(i) \/ Pub1(i) \/ Pub2(i) \/ Unlock(i)) 
        /\ WF_vars(Answer(1))
Spec == Init /\ [][Next]_vars /\ Fair
\* what is reported is right, and comes from the solver that found it
Right == out # <<>> => /\ out[1].s = truth \/ (out[1].s = 0 /\ user)
                       /\ out[1].s # 0 => out[1].by # 0 /\ local[out[1].by] = out[1].s /\ out[1].cert = out[1].by
\* nothing runs while the result is used
Quiet == main \in {"report", "done"} => \A i \in Ids : w[i] \in {"idle", "ended"}
PublishedPair == result # 0 => solver # 0 /\ local[solver] = result
Terminates == <>(main = "done")
=============================================================================
