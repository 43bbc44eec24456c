-------------------------------- MODULE Drat --------------------------------
(* Clausal proofs.  db and dup form a multiset of clauses.                    *)
(* A line either adds a clause, which must have the RUP or the RAT property   *)
(* with respect to db, or deletes one copy of a clause.  A refutation is a    *)
(* sequence of lines which adds the empty clause.                             *)
EXTENDS Cnf
VARIABLES db,        \* the clauses
          dup,       \* further copies: clause -> number of copies beyond the first
          refuted
dvars == <<db, dup, refuted>>

NoDup == [c \in {} |-> 0]
Copies(c) == IF c \in DOMAIN dup THEN dup[c] ELSE 0
DratInit(d) == db = d /\ dup = NoDup /\ refuted = FALSE
Insert(c) == IF c \in db THEN db' = db /\ dup' = (c :> (Copies(c) + 1)) @@ dup
                          ELSE db' = db \cup {c} /\ dup' = dup
Remove(c) == IF Copies(c) > 0 THEN db' = db /\ dup' = [dup EXCEPT ![c] = @ - 1]
                              ELSE db' = db \ {c} /\ dup' = dup
F == db

\* RAT: the pivot is one of the literals of the lemma
Rat(c) == \E l \in c : RatOn(F, c, l)
LemmaOk(c) == Rup(F, c) \/ Rat(c)

Lemma(c) == /\ (refuted \/ LemmaOk(c)) = TRUE      \* one Boolean, not two branches
            /\ Insert(c)
            /\ refuted' = (refuted \/ c = {})
Delete(c) == /\ c \in F                      \* deleting a clause which is not there is an error of the proof
             /\ Remove(c)
             /\ UNCHANGED refuted
\* operational variant: unknown clauses and unit clauses are ignored
DeleteLax(c) == /\ IF c \in F /\ Cardinality(c) > 1 THEN Remove(c) ELSE UNCHANGED <<db, dup>>
                /\ UNCHANGED refuted
=============================================================================
