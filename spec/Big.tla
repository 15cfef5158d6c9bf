--------------------------------- MODULE Big ---------------------------------
(* Natural numbers of any size as little-endian sequences of base-4096 digits *)
(* without leading zeros (zero is <<>>), and integers as [s, m] with a sign   *)
(* s \in {-1, 0, 1} and a magnitude m.  TLC's own integers are 32 bits wide.  *)
EXTENDS Naturals, Integers, Sequences

BASE == 4096
RECURSIVE BTrim(_)
BTrim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE BOf(_)
BOf(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o BOf(n \div BASE)
BDig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
BMax(x, y) == IF x >= y THEN x ELSE y
RECURSIVE BVal(_, _)
BVal(a, i) == IF i > Len(a) THEN 0 ELSE a[i] + BASE * BVal(a, i + 1)
BNat(a) == BVal(a, 1)                      \* only for numbers below 2^31

RECURSIVE BAddC(_, _, _, _, _)
BAddC(a, b, i, n, cy) == IF i > n THEN (IF cy = 0 THEN <<>> ELSE <<cy>>)
    ELSE LET t == BDig(a, i) + BDig(b, i) + cy IN <<t % BASE>> \o BAddC(a, b, i + 1, n, t \div BASE)
BAdd(a, b) == BTrim(BAddC(a, b, 1, BMax(Len(a), Len(b)), 0))
RECURSIVE BSubC(_, _, _, _)
BSubC(a, b, i, bw) == IF i > Len(a) THEN <<>>
    ELSE LET t == a[i] - BDig(b, i) - bw IN <<(IF t < 0 THEN t + BASE ELSE t)>> \o BSubC(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
BSub(a, b) == BTrim(BSubC(a, b, 1, 0))     \* a >= b
RECURSIVE BMul1(_, _, _, _)
BMul1(a, d, i, cy) == IF i > Len(a) THEN (IF cy = 0 THEN <<>> ELSE <<cy>>)
    ELSE LET t == a[i] * d + cy IN <<t % BASE>> \o BMul1(a, d, i + 1, t \div BASE)
RECURSIVE BMulC(_, _, _)
BMulC(a, b, i) == IF i > Len(b) THEN <<>> ELSE BAdd(BMul1(a, b[i], 1, 0), (IF i = Len(b) THEN <<>> ELSE <<0>> \o BMulC(a, b, i + 1)))
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE BTrim(BMulC(a, b, 1))
RECURSIVE BCmpC(_, _, _)
BCmpC(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE BCmpC(a, b, i - 1)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE BCmpC(a, b, Len(a))
BLess(a, b) == BCmp(a, b) < 0
RECURSIVE BDiv1(_, _, _, _)                \* by a small number 0 < d < 4096, from the top digit down: <<digits, remainder>>
BDiv1(a, d, i, r) == IF i = 0 THEN <<<<>>, r>>
    ELSE LET t == r * BASE + a[i]
             q == BDiv1(a, d, i - 1, t % d)
         IN <<Append(q[1], t \div d), q[2]>>
BQuo1(a, d) == BTrim(BDiv1(a, d, Len(a), 0)[1])
BRem1(a, d) == BDiv1(a, d, Len(a), 0)[2]
BHalf(a) == BQuo1(a, 2)
BEven(a) == a = <<>> \/ a[1] % 2 = 0
BTwice(a) == BAdd(a, a)
(* one digit of a quotient: guessed from the two top digits (the divisor's top digit is at least half the base), at most two too large *)
RECURSIVE BNoMore(_, _, _)
BNoMore(r, b, q) == IF BCmp(BTrim(BMul1(b, q, 1, 0)), r) <= 0 THEN q ELSE BNoMore(r, b, q - 1)
BDigitOf(r, b) == LET n == Len(b) q == (BDig(r, n + 1) * BASE + BDig(r, n)) \div b[n] IN BNoMore(r, b, IF q >= BASE THEN BASE - 1 ELSE q)
RECURSIVE BDivC(_, _, _, _)
BDivC(a, b, i, r) == IF i = 0 THEN <<<<>>, r>>
    ELSE LET t == BTrim(<<a[i]>> \o r)
             q == BDigitOf(t, b)
             w == BDivC(a, b, i - 1, BSub(t, BTrim(BMul1(b, q, 1, 0))))
         IN <<Append(w[1], q), w[2]>>
BDivMod(a, b) == IF BLess(a, b) THEN <<<<>>, a>>
    ELSE IF Len(b) = 1 THEN LET w == BDiv1(a, b[1], Len(a), 0) IN <<BTrim(w[1]), BOf(w[2])>>
    ELSE LET f == BASE \div (b[Len(b)] + 1)
             aa == BTrim(BMul1(a, f, 1, 0))
             w == BDivC(aa, BTrim(BMul1(b, f, 1, 0)), Len(aa), <<>>)
         IN <<BTrim(w[1]), BQuo1(w[2], f)>>
BQuo(a, b) == BDivMod(a, b)[1]
BRem(a, b) == BDivMod(a, b)[2]
RECURSIVE BGcd(_, _)
BGcd(a, b) == IF b = <<>> THEN a ELSE BGcd(b, BRem(a, b))
RECURSIVE BPow2(_)
BPow2(n) == IF n >= 12 THEN <<0>> \o BPow2(n - 12) ELSE <<2 ^ n>>
(* the n low bits of a, and a without them *)
BLow(a, n) == LET k == n \div 12 IN BTrim(SubSeq(a, 1, IF k < Len(a) THEN k ELSE Len(a)) \o (IF k < Len(a) THEN <<a[k + 1] % (2 ^ (n % 12))>> ELSE <<>>))
BHigh(a, n) == LET k == n \div 12 IN IF k >= Len(a) THEN <<>> ELSE BQuo1(SubSeq(a, k + 1, Len(a)), 2 ^ (n % 12))
BShl(a, n) == IF a = <<>> THEN a ELSE BTrim([i \in 1..(n \div 12) |-> 0] \o BMul1(a, 2 ^ (n % 12), 1, 0))
RECURSIVE BXorC(_, _, _, _)
RECURSIVE DigXor(_, _, _)
DigXor(x, y, w) == IF w = 0 THEN 0 ELSE (IF x % 2 = y % 2 THEN 0 ELSE 1) + 2 * DigXor(x \div 2, y \div 2, w - 1)
RECURSIVE DigAnd(_, _, _)
DigAnd(x, y, w) == IF w = 0 THEN 0 ELSE (x % 2) * (y % 2) + 2 * DigAnd(x \div 2, y \div 2, w - 1)
BXorC(a, b, i, n) == IF i > n THEN <<>> ELSE <<DigXor(BDig(a, i), BDig(b, i), 12)>> \o BXorC(a, b, i + 1, n)
BXor(a, b) == BTrim(BXorC(a, b, 1, BMax(Len(a), Len(b))))
BAnd(a, b) == BTrim([i \in 1..BMax(Len(a), Len(b)) |-> DigAnd(BDig(a, i), BDig(b, i), 12)])
BOr(a, b) == BSub(BAdd(a, b), BAnd(a, b))

(* ---- integers ---- *)
Z(s, m) == IF m = <<>> THEN [s |-> 0, m |-> <<>>] ELSE [s |-> s, m |-> m]
ZOf(n) == IF n < 0 THEN Z(-1, BOf(-n)) ELSE Z(1, BOf(n))
ZNeg(a) == Z(-a.s, a.m)
ZAbs(a) == Z(1, a.m)
ZCmp(a, b) == IF a.s # b.s THEN (IF a.s < b.s THEN -1 ELSE 1) ELSE IF a.s < 0 THEN BCmp(b.m, a.m) ELSE BCmp(a.m, b.m)
ZLess(a, b) == ZCmp(a, b) < 0
ZAdd(a, b) == IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a ELSE IF a.s = b.s THEN Z(a.s, BAdd(a.m, b.m))
    ELSE LET k == BCmp(a.m, b.m) IN IF k = 0 THEN Z(0, <<>>) ELSE IF k > 0 THEN Z(a.s, BSub(a.m, b.m)) ELSE Z(b.s, BSub(b.m, a.m))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == Z(a.s * b.s, BMul(a.m, b.m))
ZQuo(a, b) == Z(a.s * b.s, BQuo(a.m, b.m))      \* truncated
ZRem(a, b) == Z(a.s, BRem(a.m, b.m))
ZNat(a) == a.s * BNat(a.m)                      \* only below 2^31
=============================================================================
