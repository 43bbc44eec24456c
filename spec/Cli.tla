-------------------------------- MODULE Cli --------------------------------
(* The contract of the command line program: what a run may print and which  *)
(* exit code it has, as a function of the text it reads and of its options.  *)
EXTENDS Dimacs
\* o: the options of the run; the observable outcome r has
\*   exit  exit code            s  the result lines (10, 20, 0)
\*   v     the value lines      mm the minimized models      ver the verification lines
\*   odd   number of lines of no known kind
SatExit == 10
UnsatExit == 20
Silent(r) == r.s = <<>> /\ r.v = <<>> /\ r.mm = <<>> /\ r.ver = <<>>
Rejects(r) == r.exit = 1 /\ Silent(r)
\* a model line names each variable once, in order, and satisfies the formula
IsModelLine(v, n, F) == /\ Len(v) = n /\ \A i \in 1..n : Abs(v[i]) = i
                        /\ Satisfies(ToClause(v), F)
IsMinimized(m, n, F) == /\ Consistent(ToClause(m)) /\ Cardinality(ToClause(m)) = Len(m)
                        /\ \A i \in DOMAIN m : Abs(m[i]) \in 1..n
                        /\ Satisfies(ToClause(m), F)
Lines(o, r, n, F) ==
    /\ r.v  = <<>> \/ (Len(r.v) = 1 /\ o.model /\ ~o.minimize /\ r.s = <<10>> /\ IsModelLine(r.v[1], n, F))
    /\ r.mm = <<>> \/ (Len(r.mm) = 1 /\ o.model /\ o.minimize /\ r.s = <<10>> /\ (o.pruned \/ IsMinimized(r.mm[1], n, F)))
    /\ (o.model /\ r.s = <<10>>) => (r.v # <<>> \/ r.mm # <<>>)
\* verified results end with 0, other results with the conventional codes
Code(o, r) == IF (o.testmodel /\ r.s = <<10>>) \/ (o.testproof /\ r.s = <<20>>) THEN 0 ELSE r.s[1]
Verified(o, r) == r.ver = (IF o.testmodel /\ r.s = <<10>> THEN <<"model">>
                           ELSE IF o.testproof /\ r.s = <<20>> THEN <<"proof">> ELSE <<>>)
\* truth: 10, 20, or 0 if it is to be found out here
Truth(F, t) == IF t # 0 THEN t ELSE IF Sat(F) THEN 10 ELSE 20
Answers(o, r, n, F, t) ==
    /\ Len(r.s) = 1
    /\ r.s[1] = Truth(F, t) \/ (r.s[1] = 0 /\ o.limited)
    /\ o.lines => r.odd = 0          \* nothing but result, value and comment lines
    /\ Lines(o, r, n, F) /\ r.exit = Code(o, r) /\ Verified(o, r)
Outcome(o, r, ok, seq, t) ==
    IF o.badoption \/ ~ok THEN Rejects(r)
    ELSE LET n == MaxVar(seq) F == ToFormula(seq)
         IN IF (o.testlimit > 0 /\ n > o.testlimit) \/ o.gatestats THEN r.exit = 0 /\ Silent(r)
            ELSE Answers(o, r, n, F, t)
=============================================================================
