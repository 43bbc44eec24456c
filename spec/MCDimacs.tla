------------------------------ MODULE MCDimacs ------------------------------
(* The block-wise reader (StreamBuffer) as a state machine with a tiny block   *)
(* size, run on every text of bounded length: the numbers it delivers and the  *)
(* way it ends do not depend on where the blocks end.                          *)
(*   buf   current block (incl. the carried-over tail), pos next character     *)
(*   cut   length of the tail kept back because it may be an incomplete number *)
(*   fpos  next character of the file                                          *)
EXTENDS Dimacs
CONSTANTS Alphabet, MaxLen, Block
VARIABLES text, buf, pos, cut, fpos, out, done
vars == <<text, buf, pos, cut, fpos, out, done>>

Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Min2(a, b) == IF a < b THEN a ELSE b
\* one refill: <<buf, cut, fpos>>
RECURSIVE TailLen(_, _)
TailLen(b, k) == IF k < Len(b) /\ ~IsSpace(b[Len(b) - k]) THEN TailLen(b, k + 1) ELSE k
RefillFrom(b, c, f) ==
    LET carry == SubSeq(b, Len(b) - c + 1, Len(b))
        n     == Min2(Block - c, Len(text) - f + 1)
        nb    == carry \o SubSeq(text, f, f + n - 1)
        full  == Len(nb) = Block
        k     == IF full THEN TailLen(nb, 0) ELSE 0
    IN [buf |-> nb, cut |-> IF k = Len(nb) THEN 0 ELSE k, fpos |-> f + n]
AtEnd == pos > Len(buf) - cut
Init == /\ text \in Texts
        /\ LET x == RefillFrom(<<>>, 0, 1) IN buf = x.buf /\ cut = x.cut /\ fpos = x.fpos
        /\ pos = 1 /\ out = <<>> /\ done = FALSE
Advance(n) == IF pos + n > Len(buf) - cut
              THEN LET x == RefillFrom(buf, cut, fpos) IN buf' = x.buf /\ cut' = x.cut /\ fpos' = x.fpos /\ pos' = 1
              ELSE pos' = pos + n /\ UNCHANGED <<buf, cut, fpos>>
SkipSpaceStep == ~done /\ ~AtEnd /\ IsSpace(buf[pos]) /\ Advance(1) /\ UNCHANGED <<text, out, done>>
\* strtol on the whole buffer up to its terminator
ReadNumber == /\ ~done /\ ~AtEnd /\ ~IsSpace(buf[pos])
              /\ LET n == Number(buf, pos) IN
                 IF n[1] THEN out' = Append(out, n[2]) /\ Advance(n[3] - pos) /\ UNCHANGED <<text, done>>
                         ELSE out' = Append(out, "bad") /\ done' = TRUE /\ UNCHANGED <<text, buf, pos, cut, fpos>>
Finish == ~done /\ AtEnd /\ done' = TRUE /\ UNCHANGED <<text, buf, pos, cut, fpos, out>>
Next == SkipSpaceStep \/ ReadNumber \/ Finish
Spec == Init /\ [][Next]_vars
\* reference: the numbers of the whole text
RECURSIVE Numbers(_, _)
Numbers(i, acc) == LET j == SkipSpace(text, i) IN
                   IF j > Len(text) THEN acc
                   ELSE LET n == Number(text, j) IN IF n[1] THEN Numbers(n[3], Append(acc, n[2])) ELSE Append(acc, "bad")
\* a token longer than a block cannot be a number the format allows
RECURSIVE MaxToken(_, _, _)
MaxToken(i, cur, m) == IF i > Len(text) THEN m
                       ELSE IF IsSpace(text[i]) THEN MaxToken(i + 1, 0, m)
                       ELSE MaxToken(i + 1, cur + 1, IF cur + 1 > m THEN cur + 1 ELSE m)
Exact == (done /\ MaxToken(1, 0, 0) < Block) => out = Numbers(1, <<>>)
=============================================================================
