------------------------------- MODULE Dimacs -------------------------------
(* DIMACS text.  A text is a sequence of character codes.  Parse gives the    *)
(* meaning of a text; StreamBuffer below is the block-wise reader.            *)
EXTENDS Cnf


IsSpace(ch) == ch \in {9, 10, 11, 12, 13, 32}
IsBlank(ch) == ch \in {9, 32}
IsDigit(ch) == ch \in 48..57
IsEol(ch)   == IsSpace(ch) /\ ~IsBlank(ch)

\* ---- whole-text reading -----------------------------------------------------
RECURSIVE SkipSpace(_, _)
SkipSpace(t, i) == IF i <= Len(t) /\ IsSpace(t[i]) THEN SkipSpace(t, i + 1) ELSE i
RECURSIVE SkipToEol(_, _)
SkipToEol(t, i) == IF i <= Len(t) /\ ~IsEol(t[i]) THEN SkipToEol(t, i + 1) ELSE i
RECURSIVE Digits(_, _, _)
Digits(t, i, n) == IF i <= Len(t) /\ IsDigit(t[i]) /\ n < 100000000 THEN Digits(t, i + 1, 10 * n + (t[i] - 48)) ELSE <<n, i>>
\* number at i: <<ok, value, next>>
Number(t, i) ==
    LET j == SkipSpace(t, i) IN
    IF j > Len(t) THEN <<FALSE, 0, j>>
    ELSE LET sgn == IF t[j] = 45 THEN -1 ELSE 1
             k   == IF t[j] \in {43, 45} THEN j + 1 ELSE j
             d   == Digits(t, k, 0)
         IN IF d[2] = k THEN <<FALSE, 0, j>> ELSE <<TRUE, sgn * d[1], d[2]>>

RECURSIVE ReadClause(_, _, _)
\* literals up to the terminating zero: <<ok, sequence, next>>
ReadClause(t, i, acc) ==
    LET n == Number(t, i) IN
    IF ~n[1] THEN <<FALSE, acc, n[3]>>
    ELSE IF n[2] = 0 THEN <<TRUE, acc, n[3]>>
    ELSE ReadClause(t, n[3], Append(acc, n[2]))

Header == <<112, 32, 99, 110, 102>>      \* "p cnf"
StartsWith(t, i, s) == Len(t) >= i + Len(s) - 1 /\ \A k \in 1..Len(s) : t[i + k - 1] = s[k]

RECURSIVE ParseFrom(_, _, _)
ParseFrom(t, i, acc) ==
    LET j == SkipSpace(t, i) IN
    IF j > Len(t) THEN [ok |-> TRUE, cs |-> acc]
    ELSE IF t[j] = 99 THEN ParseFrom(t, SkipToEol(t, j), acc)
    ELSE IF t[j] = 112
         THEN IF ~StartsWith(t, j, Header) THEN [ok |-> FALSE, cs |-> <<>>]
              ELSE LET a == Number(t, j + 5)
                       b == Number(t, a[3])
                   IN IF ~a[1] \/ ~b[1] \/ a[2] < 0 \/ b[2] < 0 THEN [ok |-> FALSE, cs |-> <<>>] ELSE ParseFrom(t, b[3], acc)
    ELSE LET c == ReadClause(t, j, <<>>)
         IN IF ~c[1] THEN [ok |-> FALSE, cs |-> <<>>] ELSE ParseFrom(t, c[3], Append(acc, c[2]))
Parse(t) == ParseFrom(t, 1, <<>>)

\* ---- the problem a clause list denotes: tautologies dropped, literals once ----
Normal(s) == SelectSeq([i \in 1..Len(s) |-> ToClause(s[i])], LAMBDA c : ~IsTautology(c))
MaxVar(s) == LET M == [i \in 1..Len(s) |-> LET C == VarsOfClause(ToClause(s[i])) IN IF C = {} THEN 0 ELSE Max(C)]
             IN IF Len(s) = 0 THEN 0 ELSE Max({M[i] : i \in 1..Len(s)})
=============================================================================
