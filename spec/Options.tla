------------------------------ MODULE Options ------------------------------
(* Command line options.  An option table is a sequence of records           *)
(*   [name, kind ("bool","int","double","string"), lo, hi, loinc, hiinc]     *)
(* names and arguments are sequences of character codes; values of double    *)
(* options are counted in units of 1/Unit.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Unit   == 10000
Dash   == 45
Equals == 61
No     == <<Dash, 110, 111, Dash>>                       \* "-no-"
Help   == <<Dash, Dash, 104, 101, 108, 112>>             \* "--help"
Starts(s, p)   == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Contains(s, p) == \E i \in 1..Len(s) : Len(s) >= i + Len(p) - 1 /\ SubSeq(s, i, i + Len(p) - 1) = p
Digit(c)       == c \in 48..57
RECURSIVE Nat10(_, _, _)
Nat10(s, i, n) == IF i > Len(s) THEN n ELSE Nat10(s, i + 1, 10 * n + (s[i] - 48))
AllDigits(s)   == s # <<>> /\ \A i \in DOMAIN s : Digit(s[i])
Signed(s)      == IF s # <<>> /\ s[1] \in {43, 45} THEN <<IF s[1] = 45 THEN -1 ELSE 1, Tail(s)>> ELSE <<1, s>>
Bad  == [ok |-> FALSE, v |-> 0, huge |-> FALSE]
Num(v) == [ok |-> TRUE, v |-> v, huge |-> FALSE]
Huge == [ok |-> TRUE, v |-> 0, huge |-> TRUE]
IntValue(s) == LET p == Signed(s) IN IF ~AllDigits(p[2]) THEN Bad ELSE IF Len(p[2]) > 10 THEN Huge ELSE Num(p[1] * Nat10(p[2], 1, 0))
Frac(s) == Nat10(s \o [i \in 1..(4 - Len(s)) |-> 48], 1, 0)
DoubleValue(s) == LET p == Signed(s)
                      q == p[2]
                      D == {i \in DOMAIN q : q[i] = 46}
                      k == IF D = {} THEN Len(q) + 1 ELSE CHOOSE i \in D : \A j \in D : i <= j
                      a == SubSeq(q, 1, k - 1)
                      b == SubSeq(q, k + 1, Len(q))
                  IN IF Cardinality(D) > 1 \/ (a = <<>> /\ b = <<>>) \/ ~(a = <<>> \/ AllDigits(a)) \/ ~(b = <<>> \/ AllDigits(b)) THEN Bad
                     ELSE IF Len(a) > 5 THEN Huge
                     ELSE Num(p[1] * (Unit * Nat10(a, 1, 0) + Frac(b)))
Within(o, v) == /\ IF o.loinc THEN v >= o.lo ELSE v > o.lo
                /\ IF o.hiinc THEN v <= o.hi ELSE v < o.hi
\* what option o makes of the argument: <<"no">>, <<"error">> or <<"set", value>>
Number(o, n) == IF ~n.ok THEN <<"no">> ELSE IF n.huge \/ ~Within(o, n.v) THEN <<"error">> ELSE <<"set", n.v>>
Take(o, arg) ==
    LET pre == <<Dash>> \o o.name \o <<Equals>>
        val == SubSeq(arg, Len(pre) + 1, Len(arg))
    IN IF o.kind = "bool" THEN IF arg = <<Dash>> \o o.name THEN <<"set", TRUE>> ELSE IF arg = No \o o.name THEN <<"set", FALSE>> ELSE <<"no">>
       ELSE IF ~Starts(arg, pre) THEN <<"no">>
       ELSE IF o.kind = "string" THEN <<"set", val>>
       ELSE IF o.kind = "int" THEN Number(o, IntValue(val))
       ELSE Number(o, DoubleValue(val))
\* one argument: state [vals, rest, end] with end in {"", "error", "help"}
Arg(T, st, arg, strict) ==
    IF st.end # "" THEN st
    ELSE IF Contains(arg, Help) THEN [st EXCEPT !.end = "help"]
    ELSE LET H == {i \in DOMAIN T : Take(T[i], arg)[1] # "no"}
         IN IF H = {} THEN IF strict /\ arg # <<>> /\ arg[1] = Dash THEN [st EXCEPT !.end = "error"] ELSE [st EXCEPT !.rest = Append(@, arg)]
            ELSE LET i == CHOOSE j \in H : \A k \in H : j <= k
                     t == Take(T[i], arg)
                 IN IF t[1] = "error" THEN [st EXCEPT !.end = "error"] ELSE [st EXCEPT !.vals[i] = t[2]]
RECURSIVE Parse(_, _, _, _, _)
Parse(T, st, args, i, strict) == IF i > Len(args) THEN st ELSE Parse(T, Arg(T, st, args[i], strict), args, i + 1, strict)
=============================================================================
