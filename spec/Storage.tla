------------------------------- MODULE Storage ------------------------------
(* The clause database: a bag of clauses, each with its weight (LBD), plus     *)
(* the lists derived from it (binary watchers, unit clauses) and the           *)
(* certificate that it writes.  Clauses are sets of literals, encoded as       *)
(* sequences of maximal intervals <<a,b>> of consecutive integers, because     *)
(* clauses can have more than 2^16 literals.                                   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, Bags, TLC
VARIABLES live,   \* bag of <<clause, weight>>
          empty,  \* whether an empty clause was ever stored
          log     \* certificate: sequence of <<"a"|"d", clause>>
svars == <<live, empty, log>>
Bag(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
Size(r) == FoldSet(LAMBDA i, n : n + r[i][2] - r[i][1] + 1, 0, 1..Len(r))
Weight(n, lbd) == IF n < 3 THEN 0 ELSE lbd
Min2(a, b) == IF a < b THEN a ELSE b
Members(r) == UNION {r[i][1]..r[i][2] : i \in 1..Len(r)}
RECURSIVE RunsFrom(_, _, _)
RunsFrom(S, a, acc) ==      \* intervals of S, ascending
    IF S = {} THEN acc
    ELSE LET m == Min(S)
             e == CHOOSE k \in S : k + 1 \notin S /\ \A x \in m..k : x \in S
         IN RunsFrom(S \ (m..e), e, Append(acc, <<m, e>>))
Runs(S) == RunsFrom(S, 0, <<>>)
\* the interval encoding without one literal, for long clauses
Without(r, x) ==
    LET P(i) == IF r[i][1] <= x /\ x <= r[i][2]
                THEN (IF r[i][1] <= x - 1 THEN <<<<r[i][1], x - 1>>>> ELSE <<>>) \o (IF x + 1 <= r[i][2] THEN <<<<x + 1, r[i][2]>>>> ELSE <<>>)
                ELSE <<r[i]>>
        RECURSIVE G(_)
        G(i) == IF i > Len(r) THEN <<>> ELSE P(i) \o G(i + 1)
    IN G(1)
One(x) == (x :> 1)
StoreInit == live = EmptyBag /\ empty = FALSE /\ log = <<>>
Create(c, lbd, lemma) == /\ live' = live (+) One(<<c, Weight(Size(c), lbd)>>)
                         /\ empty' = (empty \/ Size(c) = 0)
                         /\ log' = IF lemma THEN log ELSE Append(log, <<"a", c>>)
Drop(x) == /\ BagIn(x, live) /\ live' = live (-) One(x)
           /\ log' = Append(log, <<"d", x[1]>>) /\ UNCHANGED empty
Strengthen(x, lit) == /\ BagIn(x, live)
                      /\ LET c == Without(x[1], lit) IN
                         /\ live' = (live (-) One(x)) (+) One(<<c, Weight(Size(c), Min2(x[2], Size(c)))>>)
                         /\ log' = log \o <<<<"a", c>>, <<"d", x[1]>>>>
                         /\ empty' = (empty \/ Size(c) = 0)
\* derived lists
Units == {x \in BagToSet(live) : Size(x[1]) = 1}
Binaries == {x \in BagToSet(live) : Size(x[1]) = 2}
UnitBag == [u \in {x[1][1][1] : x \in Units} |-> FoldSet(LAMBDA x, n : n + live[x], 0, {x \in Units : x[1][1][1] = u})]
\* watcher lists: when -a becomes true, b follows; the clause is {a, b}
BinSet == UNION {LET S == Members(x[1]) IN {<<-(CHOOSE a \in S : a # b), b, x[1]>> : b \in S} : x \in Binaries}
BinCount(w) == FoldSet(LAMBDA x, n : n + live[x], 0, {x \in Binaries : x[1] = w[3]})
ListingOk(all, units, bins, e) ==
    /\ Bag(all) = live
    /\ Bag(units) = UnitBag
    /\ LET B == Bag(bins) IN DOMAIN B = BinSet /\ \A w \in BinSet : B[w] = BinCount(w)
    /\ e = empty
=============================================================================
