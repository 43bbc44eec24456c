------------------------------ MODULE MCStorage -----------------------------
(* All histories of the database over two variables: the derived lists and the *)
(* certificate always describe the stored bag.                                 *)
EXTENDS Storage
CONSTANTS NV, MaxLive, MaxLog
Lits == (1..NV) \cup {-v : v \in 1..NV}
Sets == {S \in SUBSET Lits : \A x \in S : -x \notin S}
Init == StoreInit
DoCreate == \E S \in Sets, lbd \in {0, 2}, lemma \in BOOLEAN : BagCardinality(live) < MaxLive /\ Create(Runs(S), lbd, lemma)
DoDrop == \E x \in BagToSet(live) : Drop(x)
DoStrengthen == \E x \in BagToSet(live) : \E y \in Members(x[1]) : Size(x[1]) > 1 /\ Strengthen(x, y)
Next == DoCreate \/ DoDrop \/ DoStrengthen
Spec == Init /\ [][Next]_svars
Short == Len(log) <= MaxLog
\* the interval encoding is faithful
Encoding == \A S \in Sets : Members(Runs(S)) = S /\ Size(Runs(S)) = Cardinality(S) /\ \A x \in S : Without(Runs(S), x) = Runs(S \ {x})
\* every stored clause that is not an original was logged, and was not deleted since more often than it was added
Balance(c) == Cardinality({i \in 1..Len(log) : log[i] = <<"a", c>>}) - Cardinality({i \in 1..Len(log) : log[i] = <<"d", c>>})
CertCovers == \A x \in BagToSet(live) : Balance(x[1]) <= FoldSet(LAMBDA y, n : n + live[y], 0, {y \in BagToSet(live) : y[1] = x[1]})
EmptyFlag == (\E x \in BagToSet(live) : Size(x[1]) = 0) => empty
UnitsOk == \A u \in DOMAIN UnitBag : \E x \in BagToSet(live) : Members(x[1]) = {u}
BinsOk == \A w \in BinSet : Members(w[3]) = {-w[1], w[2]} /\ <<-w[2], -w[1], w[3]>> \in BinSet
=============================================================================
