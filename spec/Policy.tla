------------------------------- MODULE Policy -------------------------------
(* When the search restarts, when clauses are thrown away and which; and the   *)
(* queues on which this rests.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
Els(s) == {s[i] : i \in 1..Len(s)}
Total(s) == FoldSet(LAMBDA i, n : n + s[i], 0, 1..Len(s))
Avg(s) == Total(s) \div Len(s)
\* a queue of at most n entries, which forgets the oldest
Push(s, n, x) == IF Len(s) < n THEN Append(s, x) ELSE Append(Tail(s), x)

\* --- restarts: recent conflicts are worse than the average --------------------
\* st: lbds (recent), sizes (of recent trails), sum (of all lbds), n (number of conflicts)
\* k100, r100 in percent; where the rounding of fractions decides, either is accepted
Blocked(st, p, size) == st.n > 10000 /\ Len(st.lbds) = p.n /\ 100 * size >= p.r100 * Avg(st.sizes)
MayPass(st, p, size) == ~(st.n > 10000 /\ Len(st.lbds) = p.n /\ 100 * size > p.r100 * Avg(st.sizes))
AfterConflict(st, p, lbd, size) ==
    LET c == [st EXCEPT !.n = @ + 1, !.sizes = Push(@, p.m, size), !.sum = @ + lbd]
    IN {[c EXCEPT !.lbds = Push(@, p.n, lbd)] : i \in {1} \cap (IF MayPass(c, p, size) THEN {1} ELSE {})}
       \cup {[c EXCEPT !.lbds = <<lbd>>] : i \in {1} \cap (IF Blocked(c, p, size) THEN {1} ELSE {})}
MustTrigger(st, p) == st.n > 0 /\ Len(st.lbds) = p.n /\ Avg(st.lbds) * p.k100 * st.n > 100 * st.sum
MayTrigger(st, p) == st.n > 0 /\ Len(st.lbds) = p.n /\ Avg(st.lbds) * p.k100 * st.n >= 100 * st.sum

\* --- reduction: the worse half of the learnt clauses goes ---------------------
\* a clause is a sequence whose first element is its LBD (0: not learnt)
Cand(S, keep) == {c \in S : c[1] > keep}
ReducedOk(old, new, keep, median) ==
    LET K == Cand(old, keep)
        gone == old \ new
    IN /\ new \subseteq old /\ gone \subseteq K
       /\ IF Cardinality(K) <= 1 THEN gone = {}
          ELSE IF ~median
          THEN Cardinality(gone) = Cardinality(K) - Cardinality(K) \div 2 /\ \A c \in gone, d \in K \ gone : c[1] >= d[1]
          ELSE \E m \in {c[1] : c \in K} :
                  \* m is the value in the middle of the candidates in order
                  /\ Cardinality({c \in K : c[1] < m}) <= Cardinality(K) \div 2 /\ Cardinality({c \in K : c[1] <= m}) > Cardinality(K) \div 2
                  /\ gone = {c \in K : c[1] > m}
=============================================================================
