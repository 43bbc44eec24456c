-------------------------------- MODULE MCAig -------------------------------
(* The circuit of a recognized gate structure, built by the translation that   *)
(* the program uses (forward clauses define the gate; roots and remainder are   *)
(* the output), represents the formula -- whatever has been recognized and in   *)
(* whatever order.                                                             *)
EXTENDS MCGates
A == INSTANCE Aig
NC == Len(clauses)
\* one auxiliary variable per clause: NV+1..NV+NC is its (inverted) disjunction, the rest chains conjunctions
ALit(x) == IF x > 0 THEN 2 * x ELSE 1 - 2 * x
\* gates with a negative output literal: the table stores the variable, thus complement what refers to it
AsLit(x) == LET v == Abs(x)
                flip == v \in GateVars /\ gates[v].out < 0
            IN IF flip THEN ALit(-x) ELSE ALit(x)
\* A conjunction of the sequence s of circuit literals, with auxiliary variables from base on
RECURSIVE Chain(_, _, _, _)
Chain(s, k, acc, base) == IF k > Len(s) THEN <<acc, <<>>, base>>
                          ELSE LET r == Chain(s, k + 1, 2 * base, base + 1) IN <<r[1], <<<<2 * base, acc, s[k]>>>> \o r[2], r[3]>>
Conj(s, base) == Chain(s, 1, 1, base)
RECURSIVE Disjs(_, _)      \* literals of the disjunctions of a sequence of clauses, and their gates
Disjs(cs, base) == IF cs = <<>> THEN <<<<>>, <<>>, base>>
                   ELSE LET c == Conj([i \in 1..Cardinality(Head(cs)) |-> AsLit(-SetToSeq(Head(cs))[i])], base)
                            r == Disjs(Tail(cs), c[3])
                            neg == IF c[1] % 2 = 0 THEN c[1] + 1 ELSE c[1] - 1
                        IN <<<<neg>> \o r[1], c[2] \o r[2], r[3]>>
Formula(cs, base) == LET d == Disjs(cs, base) k == Conj(d[1], d[3]) IN <<k[1], d[2] \o k[2], k[3]>>
RECURSIVE AllGates(_, _)
AllGates(S, base) == IF S = {} THEN <<<<>>, base>>
                     ELSE LET v == CHOOSE v \in S : TRUE
                              f == Formula(SetToSeq({clauses[i] \ {-gates[v].out} : i \in gates[v].fwd}), base)
                              r == AllGates(S \ {v}, f[3])
                          IN <<f[2] \o <<<<2 * v, f[1], 1>>>> \o r[1], r[2]>>
Circuit == LET gs == AllGates(GateVars, NV + 1)
               rt == Formula(SetToSeq(C(roots \cup index)), gs[2])
               ins == {v \in VarsOf(C(1..NC)) : v \notin GateVars}
               insq == SetToSeq(ins)
           IN [head |-> <<rt[3], Len(insq), 0, 1, Len(gs[1]) + Len(rt[2])>>, ins |-> [i \in 1..Len(insq) |-> 2 * insq[i]], outs |-> <<rt[1]>>, ands |-> gs[1] \o rt[2]]
CircuitOk == LET g == Circuit IN A!WellFormed(g) /\ A!Represents(g, C(1..NC))
=============================================================================
