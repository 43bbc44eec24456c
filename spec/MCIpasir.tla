------------------------------ MODULE MCIpasir ------------------------------
(* Every behaviour of the interface over a small alphabet of clauses.         *)
EXTENDS Ipasir
CONSTANTS V, MaxClauses, MaxSolves
VARIABLES nsolves, everUnsat, wasUnsat
vars == <<ivars, nsolves, everUnsat, wasUnsat>>
Lits == V \cup Neg(V)
Alphabet == {c \in SUBSET Lits : Cardinality(c) \in 1..2 /\ ~IsTautology(c)}
Models == {m \in SUBSET Lits : Consistent(m)}
Init == IpasirInit /\ nsolves = 0 /\ everUnsat = FALSE /\ wasUnsat = {}
DoAdd == \E c \in Alphabet : c \notin clauses /\ Cardinality(clauses) < MaxClauses /\ Add(c) /\ UNCHANGED <<nsolves, everUnsat, wasUnsat>>
DoAssume == \E l \in Lits : l \notin assumptions /\ Cardinality(assumptions) < 2 /\ Assume(l) /\ UNCHANGED <<nsolves, everUnsat, wasUnsat>>
DoTerm == \E n \in {-1, 0} : n # budget /\ SetTerm(n) /\ UNCHANGED <<nsolves, everUnsat, wasUnsat>>
DoSolve == /\ nsolves < MaxSolves
           /\ nsolves' = nsolves + 1
           /\ \E r \in {0, 10, 20}, polls \in {0, 1} :
                \E m \in (IF r = 10 THEN Models ELSE {{}}), f \in (IF r = 20 THEN SUBSET assumptions ELSE {{}}) :
                   /\ Solve(r, m, f, {}, polls, {}, TRUE)
                   /\ everUnsat' = (everUnsat \/ (r = 20 /\ f = {}))
                   /\ wasUnsat' = IF r = 20 THEN wasUnsat \cup {f} ELSE wasUnsat
Next == DoAdd \/ DoAssume \/ DoTerm \/ DoSolve
Spec == Init /\ [][Next]_vars
\* ---- theorems about every history ----
DpllExact == Sat(clauses) = SatByTable(clauses)
ModelSound == st = "sat" => Satisfies(model, clauses) /\ solved \subseteq model
Monotone == everUnsat => (st # "sat" /\ ~Sat(clauses))
CoreStays == \A f \in wasUnsat : ~SatUnder(clauses, f)
AssumptionsExpire == st \in {"sat", "unsat", "unknown"} => assumptions = {}
NoSpontaneousUnknown == (st = "unknown") => budget # -1 \/ ENABLED SetTerm(0)
CoreSound == st = "unsat" => core \subseteq solved /\ ~SatUnder(clauses, core)
=============================================================================
