------------------------------ MODULE Checksums ------------------------------
(* The published digest algorithms (RFC 1321, FIPS 180-1) and the plain sums. *)
(* A 32-bit word is a pair <<high half, low half>>; a message is consumed     *)
(* piece by piece: [h chaining words, buf bytes of the open block, part bits  *)
(* of an open byte, n bytes so far].                                          *)
EXTENDS Naturals, Integers, Sequences, Bitwise
M == 65536
Add2(x, y) == LET lo == x[2] + y[2] hi == x[1] + y[1] + lo \div M IN <<hi % M, lo % M>>
Add4(a, b, u, v) == LET lo == a[2] + b[2] + u[2] + v[2] hi == a[1] + b[1] + u[1] + v[1] + lo \div M IN <<hi % M, lo % M>>
Xor2(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
And2(x, y) == <<x[1] & y[1], x[2] & y[2]>>
Or2(x, y) == <<x[1] | y[1], x[2] | y[2]>>
Not2(x) == <<65535 - x[1], 65535 - x[2]>>
Rotl2(x, n) == LET w == IF n >= 16 THEN <<x[2], x[1]>> ELSE x
                   k == n % 16 a == 2 ^ k b == 2 ^ (16 - k)
               IN <<((w[1] * a) % M) + w[2] \div b, ((w[2] * a) % M) + w[1] \div b>>
(* ---- MD5 ---- *)
MdK == <<
      <<55146, 42104>>, <<59591, 46934>>, <<9248, 28891>>, <<49597, 52974>>,
      <<62844, 4015>>, <<18311, 50730>>, <<43056, 17939>>, <<64838, 38145>>,
      <<27008, 39128>>, <<35652, 63407>>, <<65535, 23473>>, <<35164, 55230>>,
      <<27536, 4386>>, <<64920, 29075>>, <<42617, 17294>>, <<18868, 2081>>,
      <<63006, 9570>>, <<49216, 45888>>, <<9822, 23121>>, <<59830, 51114>>,
      <<54831, 4189>>, <<580, 5203>>, <<55457, 59009>>, <<59347, 64456>>,
      <<8673, 52710>>, <<49975, 2006>>, <<62677, 3463>>, <<17754, 5357>>,
      <<43491, 59653>>, <<64751, 41976>>, <<26479, 729>>, <<36138, 19594>>,
      <<65530, 14658>>, <<34673, 63105>>, <<28061, 24866>>, <<64997, 14348>>,
      <<42174, 59972>>, <<19422, 53161>>, <<63163, 19296>>, <<48831, 48240>>,
      <<10395, 32454>>, <<60065, 10234>>, <<54511, 12421>>, <<1160, 7429>>,
      <<55764, 53305>>, <<59099, 39397>>, <<8098, 31992>>, <<50348, 22117>>,
      <<62505, 8772>>, <<17194, 65431>>, <<43924, 9127>>, <<64659, 41017>>,
      <<25947, 22979>>, <<36620, 52370>>, <<65519, 62589>>, <<34180, 24017>>,
      <<28584, 32335>>, <<65068, 59104>>, <<41729, 17172>>, <<19976, 4513>>,
      <<63315, 32386>>, <<48442, 62005>>, <<10967, 53947>>, <<60294, 54161>>>>
MdS == <<<<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>>>>
MdF(i, x, y, z) == CASE i < 16 -> Or2(And2(x, y), And2(Not2(x), z))
                     [] i \in 16..31 -> Or2(And2(x, z), And2(y, Not2(z)))
                     [] i \in 32..47 -> Xor2(x, Xor2(y, z))
                     [] OTHER -> Xor2(y, Or2(x, Not2(z)))
MdX(i) == CASE i < 16 -> i [] i \in 16..31 -> (5 * i + 1) % 16 [] i \in 32..47 -> (3 * i + 5) % 16 [] OTHER -> (7 * i) % 16
RECURSIVE MdSteps(_, _, _)
MdSteps(v, x, i) ==
    IF v = <<>> \/ i = 64 THEN v      \* (v = <<>>: never; it makes TLC evaluate step by step)
    ELSE LET t == Add4(v[1], MdF(i, v[2], v[3], v[4]), x[MdX(i) + 1], MdK[i + 1])
         IN MdSteps(<<v[4], Add2(v[2], Rotl2(t, MdS[i \div 16 + 1][(i % 4) + 1])), v[2], v[3]>>, x, i + 1)
LittleWord(b, k) == <<b[k + 3] + 256 * b[k + 4], b[k + 1] + 256 * b[k + 2]>>
BigWord(b, k) == <<256 * b[k + 1] + b[k + 2], 256 * b[k + 3] + b[k + 4]>>
MdInit == <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>>>
MdBlock(h, b) == LET v == MdSteps(h, [k \in 1..16 |-> LittleWord(b, 4 * (k - 1))], 0) IN [k \in 1..4 |-> Add2(h[k], v[k])]
LittleBytes(h) == [k \in 1..4 * Len(h) |-> LET w == h[(k - 1) \div 4 + 1] j == (k - 1) % 4 IN IF j < 2 THEN (w[2] \div (256 ^ j)) % 256 ELSE (w[1] \div (256 ^ (j - 2))) % 256]
BigBytes(h) == [k \in 1..4 * Len(h) |-> LET w == h[(k - 1) \div 4 + 1] j == (k - 1) % 4 IN IF j < 2 THEN (w[1] \div (256 ^ (1 - j))) % 256 ELSE (w[2] \div (256 ^ (3 - j))) % 256]
(* ---- SHA-1 ---- *)
ShInit == MdInit \o <<<<50130, 57840>>>>
RECURSIVE ShSchedule(_)
ShSchedule(w) == IF Len(w) = 80 THEN w ELSE LET i == Len(w) + 1 IN ShSchedule(Append(w, Rotl2(Xor2(Xor2(w[i - 3], w[i - 8]), Xor2(w[i - 14], w[i - 16])), 1)))
ShF(i, x, y, z) == CASE i < 20 -> Or2(And2(x, y), And2(Not2(x), z)) [] i \in 40..59 -> Or2(And2(x, y), Or2(And2(x, z), And2(y, z))) [] OTHER -> Xor2(x, Xor2(y, z))
ShK(i) == CASE i < 20 -> <<23170, 31129>> [] i \in 20..39 -> <<28377, 60321>> [] i \in 40..59 -> <<36635, 48348>> [] OTHER -> <<51810, 49622>>
RECURSIVE ShSteps(_, _, _)
ShSteps(v, w, i) ==
    IF v = <<>> \/ i = 80 THEN v
    ELSE ShSteps(<<Add2(Add4(Rotl2(v[1], 5), ShF(i, v[2], v[3], v[4]), v[5], ShK(i)), w[i + 1]), v[1], Rotl2(v[2], 30), v[3], v[4]>>, w, i + 1)
ShBlock(h, b) == LET v == ShSteps(h, ShSchedule([k \in 1..16 |-> BigWord(b, 4 * (k - 1))]), 0) IN [k \in 1..5 |-> Add2(h[k], v[k])]
(* ---- messages ---- *)
BlockOf(alg, h, b) == IF alg = "md5" THEN MdBlock(h, b) ELSE ShBlock(h, b)
Fresh(alg) == [h |-> IF alg = "md5" THEN MdInit ELSE ShInit, buf |-> <<>>, part |-> <<>>, n |-> 0]
RECURSIVE Absorb(_, _, _)
Absorb(alg, d, bytes) ==      \* d.part is empty
    IF Len(d.buf) + Len(bytes) < 64 THEN [d EXCEPT !.buf = @ \o bytes, !.n = @ + Len(bytes)]
    ELSE LET k == 64 - Len(d.buf)
         IN Absorb(alg, [d EXCEPT !.h = BlockOf(alg, @, d.buf \o SubSeq(bytes, 1, k)), !.buf = <<>>, !.n = @ + k], SubSeq(bytes, k + 1, Len(bytes)))
RECURSIVE BitsVal(_, _)
BitsVal(b, v) == IF b = <<>> THEN v ELSE BitsVal(Tail(b), 2 * v + Head(b))
RECURSIVE AbsorbBits(_, _, _)
AbsorbBits(alg, d, bits) ==
    IF Len(d.part) + Len(bits) < 8 THEN [d EXCEPT !.part = @ \o bits]
    ELSE LET k == 8 - Len(d.part)
         IN AbsorbBits(alg, Absorb(alg, [d EXCEPT !.part = <<>>], <<BitsVal(d.part \o SubSeq(bits, 1, k), 0)>>), SubSeq(bits, k + 1, Len(bits)))
BitsOfByte(b) == [i \in 1..8 |-> (b \div 2 ^ (8 - i)) % 2]
RECURSIVE BitsOfBytes(_)
BitsOfBytes(s) == IF s = <<>> THEN <<>> ELSE BitsOfByte(Head(s)) \o BitsOfBytes(Tail(s))
Take(alg, d, bytes) == IF d.part = <<>> THEN Absorb(alg, d, bytes) ELSE AbsorbBits(alg, d, BitsOfBytes(bytes))
Zeros(k) == [i \in 1..k |-> 0]
(* the length of messages here is far below 2^31 bits *)
LengthLittle(bits) == <<bits % 256, (bits \div 256) % 256, (bits \div 65536) % 256, bits \div 16777216>> \o Zeros(4)
LengthBig(bits) == Zeros(4) \o <<bits \div 16777216, (bits \div 65536) % 256, (bits \div 256) % 256, bits % 256>>
Digest(alg, d) ==
    LET bits == 8 * d.n + Len(d.part)
        one == AbsorbBits(alg, d, <<1>> \o Zeros(7 - Len(d.part)))
        pad == Absorb(alg, one, Zeros((120 - Len(one.buf)) % 64))
        end == Absorb(alg, pad, IF alg = "md5" THEN LengthLittle(bits) ELSE LengthBig(bits))
    IN IF alg = "md5" THEN LittleBytes(end.h) ELSE BigBytes(end.h)
DigestOf(alg, bytes) == Digest(alg, Absorb(alg, Fresh(alg), bytes))
(* ---- sums: of bytes modulo 2^32 as a word, exclusive or ---- *)
RECURSIVE SumW(_, _)
SumW(w, s) == IF s = <<>> THEN w ELSE SumW(Add2(w, <<0, Head(s)>>), Tail(s))
RECURSIVE XorB(_, _)
XorB(x, s) == IF s = <<>> THEN x ELSE XorB(x ^^ Head(s), Tail(s))
=============================================================================
