------------------------------ MODULE TraceMin ------------------------------
(* Model minimization: results of the real minimizer.                          *)
(* F: the formula, M: the model given, G: variables defined by gates,          *)
(* L: the minimized model.                                                     *)
EXTENDS Cnf, Json, IOUtils
VARIABLES l
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ev == TraceLog[l]
TraceInit == l = 1
Begin == Ev.e = "begin"
Hits(L, F) == \A c \in F : c \cap L # {}
\* every choice for the free variables which are not gate outputs can be completed to a model
Covers(F, L, G) == LET V == VarsOf(F) \ G IN
    \A a \in Valuations({v \in V : v \notin L /\ -v \notin L}) : SatUnder(F, a \cup {x \in L : Abs(x) \in V})
Irreducible(L, F) == \A x \in L : ~Hits(L \ {x}, F)
Minimum(L, M, F) == \A k \in 0..(Cardinality(L) - 1) : ~\E S \in kSubset(k, M) : Hits(S, F)
DoMin == /\ Ev.e = "minimize"
         /\ (LET F == NoTaut(ToFormula(Ev.cs))
                 M == ToClause(Ev.m)
                 G == {Ev.outs[i] : i \in 1..Len(Ev.outs)}
                 L == ToClause(Ev.min)
                 P == NoTaut(ToFormula(Ev.hs))            \* the clauses that have to be covered
             IN /\ Satisfies(M, F)                     \* precondition
                /\ ToClause(Ev.after) = M              \* the model itself is left alone
                /\ L \subseteq M
                /\ (Ev.project => \A x \in L : Abs(x) \notin G)
                /\ (~Ev.project => (Hits(L, P) /\ Irreducible(L, P) /\ (Ev.minimal => Minimum(L, M, P))))
                /\ (~Ev.pruned => P = F)
                /\ Covers(F, L, G)) = TRUE
TraceNext == l <= Len(TraceLog) /\ l' = l + 1 /\ (Begin \/ DoMin)
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(TraceLog)>>)
            /\ TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
