-------------------------------- MODULE Md5 --------------------------------
(* The MD5 message digest (RFC 1321).  A 32-bit word is a pair <<high, low>> of *)
(* 16-bit numbers, because TLC's integers have 32 bits with a sign.            *)
EXTENDS Integers, Sequences, Bitwise, TLC

Add(x, y) == LET lo == x[2] + y[2] IN <<(x[1] + y[1] + lo \div 65536) % 65536, lo % 65536>>
AndW(x, y) == <<x[1] & y[1], x[2] & y[2]>>
OrW(x, y)  == <<x[1] | y[1], x[2] | y[2]>>
XorW(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
NotW(x)    == <<65535 - x[1], 65535 - x[2]>>
RotL(x, s) == LET y == IF s >= 16 THEN <<x[2], x[1]>> ELSE x
                  k == s % 16
                  p == 2^k
                  q == 2^(16 - k)
              IN IF k = 0 THEN y ELSE <<(y[1] % q) * p + y[2] \div q, (y[2] % q) * p + y[1] \div q>>

T == <<  \* T[i] = floor(2^32 * |sin(i)|)
        <<55146, 42104>>, <<59591, 46934>>, <<9248, 28891>>, <<49597, 52974>>, <<62844, 4015>>, <<18311, 50730>>, <<43056, 17939>>, <<64838, 38145>>,
        <<27008, 39128>>, <<35652, 63407>>, <<65535, 23473>>, <<35164, 55230>>, <<27536, 4386>>, <<64920, 29075>>, <<42617, 17294>>, <<18868, 2081>>,
        <<63006, 9570>>, <<49216, 45888>>, <<9822, 23121>>, <<59830, 51114>>, <<54831, 4189>>, <<580, 5203>>, <<55457, 59009>>, <<59347, 64456>>,
        <<8673, 52710>>, <<49975, 2006>>, <<62677, 3463>>, <<17754, 5357>>, <<43491, 59653>>, <<64751, 41976>>, <<26479, 729>>, <<36138, 19594>>,
        <<65530, 14658>>, <<34673, 63105>>, <<28061, 24866>>, <<64997, 14348>>, <<42174, 59972>>, <<19422, 53161>>, <<63163, 19296>>, <<48831, 48240>>,
        <<10395, 32454>>, <<60065, 10234>>, <<54511, 12421>>, <<1160, 7429>>, <<55764, 53305>>, <<59099, 39397>>, <<8098, 31992>>, <<50348, 22117>>,
        <<62505, 8772>>, <<17194, 65431>>, <<43924, 9127>>, <<64659, 41017>>, <<25947, 22979>>, <<36620, 52370>>, <<65519, 62589>>, <<34180, 24017>>,
        <<28584, 32335>>, <<65068, 59104>>, <<41729, 17172>>, <<19976, 4513>>, <<63315, 32386>>, <<48442, 62005>>, <<10967, 53947>>, <<60294, 54161>>>>
Rot == << <<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>> >>
Start == << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>> >>

\* word k (0..15) of block n (from 0) of the padded message
Word(m, n, k) == LET o == 64 * n + 4 * k IN <<m[o + 4] * 256 + m[o + 3], m[o + 2] * 256 + m[o + 1]>>

RECURSIVE Steps(_, _, _)
Steps(X, i, v) ==                                  \* step i (0..63) from the registers v = <<a, b, c, d>>
    IF i = 64 THEN v
    ELSE LET r == i \div 16
             b == v[2]  c == v[3]  d == v[4]
             f == CASE r = 0 -> OrW(AndW(b, c), AndW(NotW(b), d))
                    [] r = 1 -> OrW(AndW(b, d), AndW(c, NotW(d)))
                    [] r = 2 -> XorW(b, XorW(c, d))
                    [] OTHER -> XorW(c, OrW(b, NotW(d)))
             k == CASE r = 0 -> i [] r = 1 -> (5 * i + 1) % 16 [] r = 2 -> (3 * i + 5) % 16 [] OTHER -> (7 * i) % 16
             s == Add(Add(v[1], f), Add(X[k + 1], T[i + 1]))
             n == TLCEval(<<d, Add(b, RotL(s, Rot[r + 1][(i % 4) + 1])), b, c>>)
         IN Steps(X, i + 1, n)

RECURSIVE Blocks(_, _, _)
Blocks(m, n, v) ==
    IF 64 * n >= Len(m) THEN v
    ELSE LET X == [k \in 1..16 |-> Word(m, n, k - 1)]
             w == Steps(X, 0, v)
         IN Blocks(m, n + 1, TLCEval([j \in 1..4 |-> Add(v[j], w[j])]))

\* the message (a sequence of bytes, less than 2^27) with its padding
Padded(m) == LET z == (55 - Len(m)) % 64
                 len == 8 * Len(m)
             IN m \o <<128>> \o [i \in 1..z |-> 0] \o [i \in 1..8 |-> IF i > 4 THEN 0 ELSE (len \div 256^(i - 1)) % 256]

Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexByte(x) == Hex[x \div 16 + 1] \o Hex[(x % 16) + 1]
HexWord(w) == HexByte(w[2] % 256) \o HexByte(w[2] \div 256) \o HexByte(w[1] % 256) \o HexByte(w[1] \div 256)
Digest(m) == LET v == Blocks(Padded(m), 0, Start) IN HexWord(v[1]) \o HexWord(v[2]) \o HexWord(v[3]) \o HexWord(v[4])

\* decimal notation in ASCII
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
DecInt(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE Dec(n)
=============================================================================
