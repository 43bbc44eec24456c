-------------------------------- MODULE Aig --------------------------------
(* And-inverter circuits in the AIGER format (without latches) and what it     *)
(* means that a circuit represents a formula.                                  *)
(* A literal of the circuit is 2v (variable v) or 2v+1 (its complement); 0 is  *)
(* false, 1 true.  An and-gate is a triple <<lhs, rhs0, rhs1>>.                *)
EXTENDS Cnf
Even(x) == x % 2 = 0
AVar(x) == x \div 2
Items(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(Items(s)) = Len(s)
InVars(g) == {AVar(x) : x \in Items(g.ins)}
DefVars(g) == {AVar(a[1]) : a \in Items(g.ands)}

\* variables all of whose predecessors are known
RECURSIVE Layers(_, _)
Layers(g, known) == LET new == {AVar(a[1]) : a \in {b \in Items(g.ands) : AVar(b[1]) \notin known /\ AVar(b[2]) \in known /\ AVar(b[3]) \in known}}
                    IN IF new = {} THEN known ELSE Layers(g, known \cup new)
WellFormed(g) ==
    /\ g.head[2] = Len(g.ins) /\ g.head[3] = 0 /\ g.head[4] = Len(g.outs) /\ Len(g.outs) = 1 /\ g.head[5] = Len(g.ands)
    /\ g.head[1] >= g.head[2] + g.head[5]
    /\ \A x \in Items(g.ins) : Even(x) /\ x > 1
    /\ \A a \in Items(g.ands) : Len(a) = 3 /\ Even(a[1]) /\ a[1] > 1
    \* every variable is an input or defined, once, and only those are used
    /\ Distinct(g.ins) /\ Cardinality(DefVars(g)) = Len(g.ands) /\ InVars(g) \cap DefVars(g) = {}
    /\ \A x \in Items(g.outs) \cup UNION {Items(a) : a \in Items(g.ands)} : AVar(x) <= g.head[1] /\ AVar(x) \in {0} \cup InVars(g) \cup DefVars(g)
    /\ \A x \in Items(g.ins) : AVar(x) <= g.head[1]
    /\ Layers(g, {0} \cup InVars(g)) = {0} \cup InVars(g) \cup DefVars(g)      \* no cycles

\* The set of input valuations under which a literal is true, for all variables at once.
RECURSIVE Tables(_, _, _)
Lookup(t, all, x) == IF Even(x) THEN t[AVar(x)] ELSE all \ t[AVar(x)]
Tables(g, all, t) == LET new == {b \in Items(g.ands) : AVar(b[1]) \notin DOMAIN t /\ AVar(b[2]) \in DOMAIN t /\ AVar(b[3]) \in DOMAIN t}
                     IN IF new = {} THEN t
                        ELSE Tables(g, all, [v \in {AVar(b[1]) : b \in new} |->
                                                LET b == CHOOSE b \in new : AVar(b[1]) = v IN Lookup(t, all, b[2]) \cap Lookup(t, all, b[3])] @@ t)
\* input v of the circuit is variable v of the formula
Accepts(g) == LET all == Valuations(InVars(g))
                  t == Tables(g, all, [v \in {0} \cup InVars(g) |-> IF v = 0 THEN {} ELSE {a \in all : v \in a}])
              IN Lookup(t, all, g.outs[1])
\* the circuit is true exactly for the input valuations with which the formula can be satisfied
Represents(g, F) == /\ InVars(g) \subseteq VarsOf(F)
                    /\ Accepts(g) = {a \in Valuations(InVars(g)) : SatUnder(F, a)}
=============================================================================
