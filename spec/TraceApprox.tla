----------------------------- MODULE TraceApprox -----------------------------
EXTENDS Approx, Json, IOUtils
VARIABLES l, F, classes, bbs, clauses, asm, removed, calling
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<l, F, classes, bbs, clauses, asm, removed, calling>>
Ev == TraceLog[l]
TraceInit == l = 1 /\ F = {} /\ classes = <<>> /\ bbs = {} /\ clauses = {} /\ asm = {} /\ removed = {} /\ calling = FALSE
Begin == Ev.e = "begin" /\ F' = {} /\ classes' = <<>> /\ bbs' = {} /\ clauses' = {} /\ asm' = {} /\ removed' = {} /\ calling' = FALSE
DoCnf == Ev.e = "cnf" /\ F' = ToFormula(Ev.cs) /\ UNCHANGED <<classes, bbs, clauses, asm, removed, calling>>
DoConj == /\ Ev.e = "conjectures" /\ classes' = [i \in DOMAIN Ev.classes |-> ToClause(Ev.classes[i])] /\ bbs' = ToClause(Ev.bbs)
          /\ UNCHANGED <<F, clauses, asm, removed, calling>>
V == ConjVars(classes, bbs)
On(C, A) == {d \in C : \A x \in d : Abs(x) \in V \/ -x \in A}
\* one step: the approximation is exactly what is left of the conjectures, all earlier clauses are kept switchable
Step == LET R == removed \cup ToClause(Ev.rm)
            C == clauses \cup ToFormula(Ev.new)
            A == ToClause(Ev.as)
        IN /\ (/\ Consistent(A) /\ Cardinality(A) = Len(Ev.as)
               /\ {Abs(x) : x \in A} \cap V = {}
               /\ {Abs(x) : x \in asm} \subseteq {Abs(x) : x \in A}
               /\ On(clauses, A) \subseteq On(clauses, asm)           \* nothing is switched on again
               /\ Guarded(C, A, V)
               /\ Exact(C, A, classes, bbs, R)
               /\ Ev.on = Cardinality(On(C, A))
               /\ (V \subseteq R => Ev.on = 0)) = TRUE
           /\ removed' = R /\ clauses' = C /\ asm' = A
DoStep == Ev.e \in {"init", "refine"} /\ Step /\ UNCHANGED <<F, classes, bbs, calling>>
DoCall == Ev.e = "call" /\ calling' = TRUE /\ UNCHANGED <<F, classes, bbs, clauses, asm, removed>>
DoNone == Ev.e = "none" /\ calling /\ calling' = FALSE /\ UNCHANGED <<F, classes, bbs, clauses, asm, removed>>
DoSolve == /\ Ev.e = "solve" /\ calling /\ calling' = FALSE
           /\ Ev.cons
           /\ (IF Ev.r = 10 THEN Consistent(ToClause(Ev.m)) /\ Satisfies(ToClause(Ev.m), F)
               ELSE Ev.r = 20 /\ ~Sat(F)) = TRUE
           /\ UNCHANGED <<F, classes, bbs, clauses, asm, removed>>
TraceNext == /\ l <= Len(TraceLog) /\ l' = l + 1
             /\ \/ Begin \/ DoCnf \/ DoConj \/ DoStep \/ DoCall \/ DoNone \/ DoSolve
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
            /\ TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
