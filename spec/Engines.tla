------------------------------- MODULE Engines -------------------------------
(* Random number engines as state machines over exact natural numbers.        *)
(* An engine is a configuration (a record whose k names the family) and a     *)
(* state; Step gives the next number and the next state.                      *)
(*   lcg   x' = (a x + c) mod m                                     number x' *)
(*   inv   x' = (a x^(-1) + b) mod p   (0^(-1) = 0)                 number x' *)
(*   lfsr  Tausworthe: w bits, exponents n and q, s steps at a time number x' *)
(*   mt    the last n words; the next word is twisted from the oldest ones    *)
(*   xor   two engines, (r1 << s1) xor (r2 << s2), w bits                          *)
(*   add   two multiplicative lcgs, (r1 - r2) brought into 1..m1-1            *)
(*   shf   an engine shuffled through a table (Bays and Durham)               *)
(*   r48   the upper 31 of the 48 bits of an lcg                              *)
(* Words are natural numbers in the representation of module Big.             *)
EXTENDS Big
LOCAL INSTANCE Naturals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

B0 == <<>>
BOne == <<1>>
MulMod(a, b, m) == BRem(BMul(a, b), m)
RECURSIVE PowMod(_, _, _)
PowMod(a, n, m) == IF n = B0 THEN BRem(BOne, m)
                   ELSE LET h == PowMod(a, BHalf(n), m)  hh == MulMod(h, h, m) IN IF BEven(n) THEN hh ELSE MulMod(hh, a, m)
\* the inverse modulo a prime, and 0 for 0
InvMod(x, pr) == IF x = B0 THEN B0 ELSE PowMod(x, BSub(pr, <<2>>), pr)
ModZ(z, m) == IF z.s >= 0 THEN BRem(z.m, m) ELSE LET r == BRem(z.m, m) IN IF r = B0 THEN B0 ELSE BSub(m, r)
Ones(w) == BSub(BPow2(w), BOne)
RECURSIVE BLen(_)
BLen(a) == IF a = B0 THEN 0 ELSE 1 + BLen(BHalf(a))                 \* number of bits

RECURSIVE EMin(_), EMax(_)
EMin(g) == CASE g.k \in {"lcg", "inv"} -> IF g.c = B0 THEN BOne ELSE B0
             [] g.k \in {"lfsr", "mt", "r48"} -> B0
             [] g.k = "xor" -> B0
             [] g.k = "add" -> BOne
             [] g.k = "shf" -> EMin(g.b1)
EMax(g) == CASE g.k \in {"lcg", "inv"} -> BSub(g.m, BOne)
             [] g.k \in {"lfsr", "mt"} -> Ones(g.w)
             [] g.k = "r48" -> Ones(31)
             [] g.k = "xor" -> LET n == BMax(BLen(EMax(g.b1)) + g.s1, BLen(EMax(g.b2)) + g.s2) IN Ones(IF n < g.w THEN n ELSE g.w)
             [] g.k = "add" -> BSub(g.b1.m, BOne)
             [] g.k = "shf" -> EMax(g.b1)

R48 == [k |-> "lcg", tb |-> 32, sg |-> FALSE, a |-> BAdd(BShl(BOf(5), 32), BAdd(BShl(BOf(57068), 16), BOf(58989))), c |-> BOf(11), m |-> BPow2(48)]

----------------------------------------------------------------------------
(* one step of each family *)
LfsrStep(g, x) ==
  LET hi == BShl(BHigh(x, g.w - g.n), g.w - g.n)                     \* the n upper bits
      fb == BHigh(BXor(BLow(BShl(x, g.q), g.w), x), g.n - g.s)
  IN BXor(BLow(BShl(hi, g.s), g.w), fb)
MtTwist(g, x0, x1, xm) ==
  LET y == BAdd(BShl(BHigh(x0, g.r), g.r), BLow(x1, g.r))
      h == BXor(xm, BHalf(y))
  IN IF BEven(x1) THEN h ELSE BXor(h, g.a)
MtTemper(g, z0) ==
  LET z1 == BXor(z0, BAnd(BHigh(z0, g.u), g.d))
      z2 == BXor(z1, BAnd(BLow(BShl(z1, g.s), g.w), g.b))
      z3 == BXor(z2, BAnd(BLow(BShl(z2, g.t), g.w), g.c))
  IN BXor(z3, BHigh(z3, g.l))

RECURSIVE Step(_, _)                       \* <<number, next state>>
Step(g, st) ==
  CASE g.k = "lcg" -> LET x == BRem(BAdd(BMul(g.a, st), g.c), g.m) IN <<x, x>>
    [] g.k = "inv" -> LET x == BRem(BAdd(BMul(g.a, InvMod(st, g.m)), g.c), g.m) IN <<x, x>>
    [] g.k = "r48" -> LET w == Step(R48, st) IN <<BHigh(w[1], 17), w[2]>>
    [] g.k = "lfsr" -> LET x == LfsrStep(g, st) IN <<x, x>>
    [] g.k = "mt" -> LET x == MtTwist(g, st[1], st[2], st[1 + g.m]) IN <<MtTemper(g, x), Append(Tail(st), x)>>
    [] g.k = "xor" -> LET u == Step(g.b1, st[1])  v == Step(g.b2, st[2])
                      IN <<BLow(BXor(BShl(u[1], g.s1), BShl(v[1], g.s2)), g.w), <<u[2], v[2]>>>>
    [] g.k = "add" -> LET u == Step(g.b1, st[1])  v == Step(g.b2, st[2])
                      IN <<IF BLess(v[1], u[1]) THEN BSub(u[1], v[1]) ELSE BSub(BAdd(u[1], BSub(g.b1.m, BOne)), v[1]), <<u[2], v[2]>>>>
    [] g.k = "shf" -> LET range == BAdd(BSub(EMax(g), EMin(g)), BOne)
                          j == 1 + BNat(BQuo(BMul(BOf(g.n), BSub(st[3], EMin(g))), range))
                          u == Step(g.b1, st[1])
                      IN <<st[2][j], <<u[2], [st[2] EXCEPT ![j] = u[1]], st[2][j]>>>>
RECURSIVE Run(_, _, _, _)                  \* n steps: <<numbers, state>>
Run(g, st, n, acc) == IF n = 0 THEN <<acc, st>> ELSE LET w == Step(g, st) IN Run(g, w[2], n - 1, Append(acc, w[1]))

----------------------------------------------------------------------------
(* seeding *)
RECURSIVE MtFill(_, _)
MtFill(g, xs) == IF Len(xs) = g.n THEN xs
                 ELSE LET x == xs[Len(xs)] IN MtFill(g, Append(xs, BLow(BAdd(BMul(g.f, BXor(x, BHigh(x, g.w - 2))), BOf(Len(xs))), g.w)))
ShfOf(g, b) == LET w == Run(g.b1, b, g.n, <<>>)  y == Step(g.b1, w[2]) IN <<y[2], w[1], y[1]>>
RECURSIVE New(_, _)                        \* from one integer
New(g, z) ==
  CASE g.k \in {"lcg", "inv"} -> LET x == ModZ(z, g.m) IN IF g.c = B0 /\ x = B0 THEN BOne ELSE x
    [] g.k = "r48" -> BAdd(BShl(BLow(z.m, 32), 16), BOf(13070))
    [] g.k = "lfsr" -> LET x == BLow(z.m, g.w) IN IF BLess(x, BPow2(g.w - g.n)) THEN BAdd(x, BPow2(g.w - g.n)) ELSE x
    [] g.k = "mt" -> MtFill(g, <<BLow(z.m, g.w)>>)
    [] g.k = "xor" -> <<New(g.b1, z), New(g.b2, Z(z.s, BLow(z.m, g.w2)))>>     \* (w2 bits in the numbers of the second engine)
    [] g.k = "add" -> <<New(g.b1, z), New(g.b2, z)>>
    [] g.k = "shf" -> ShfOf(g, New(g.b1, z))
RECURSIVE Default(_)
Default(g) == CASE g.k \in {"lcg", "inv", "r48"} -> New(g, ZOf(1))
                [] g.k = "lfsr" -> New(g, ZOf(341))
                [] g.k = "mt" -> New(g, ZOf(5489))
                [] g.k \in {"xor", "add"} -> <<Default(g.b1), Default(g.b2)>>
                [] g.k = "shf" -> ShfOf(g, Default(g.b1))

(* seed sequences: n words of 32 bits scrambled from the entropy words v *)
Wd(x) == BLow(x, 32)
Mix27(x) == BXor(x, BHigh(x, 27))
SeqT(n) == IF n >= 623 THEN 11 ELSE IF n >= 68 THEN 7 ELSE IF n >= 39 THEN 5 ELSE IF n >= 7 THEN 3 ELSE (n - 1) \div 2
K1 == BOf(1664525)
K2 == BOf(1566083941)
\* words are indexed from 0 here, as a function
Upd(b, i, x) == [b EXCEPT ![i] = x]
RECURSIVE SeqOne(_, _, _, _, _, _, _), SeqTwo(_, _, _, _, _, _)
SeqOne(b, v, k, m, n, pp, q) ==
  IF k = m THEN b
  ELSE LET kn == k % n  kp == (k + pp) % n  kq == (k + q) % n  k1 == (k + n - 1) % n
           r1 == Wd(BMul(K1, Mix27(BXor(BXor(b[kn], b[kp]), b[k1]))))
           r2 == Wd(BAdd(r1, IF k = 0 THEN BOf(Len(v)) ELSE IF k <= Len(v) THEN BAdd(BOf(kn), v[k]) ELSE BOf(kn)))
           b1 == Upd(b, kp, Wd(BAdd(b[kp], r1)))
           b2 == Upd(b1, kq, Wd(BAdd(b1[kq], r2)))
       IN SeqOne(Upd(b2, kn, r2), v, k + 1, m, n, pp, q)
SeqTwo(b, k, hi, n, pp, q) ==
  IF k = hi THEN b
  ELSE LET kn == k % n  kp == (k + pp) % n  kq == (k + q) % n  k1 == (k + n - 1) % n
           r3 == Wd(BMul(K2, Mix27(Wd(BAdd(BAdd(b[kn], b[kp]), b[k1])))))
           r4 == Wd(BSub(BAdd(r3, BPow2(32)), BOf(kn)))
           b1 == Upd(b, kp, BXor(b[kp], r3))
           b2 == Upd(b1, kq, BXor(b1[kq], r4))
       IN SeqTwo(Upd(b2, kn, r4), k + 1, hi, n, pp, q)
SeedSeq(v, n) ==
  IF n = 0 THEN <<>>
  ELSE LET t == SeqT(n)  pp == (n - t) \div 2  q == pp + t  m == BMax(Len(v) + 1, n)
           b0 == [i \in 0..(n - 1) |-> BSub(BAdd(BShl(BOf(35723), 16), BOf(35723)), B0)]
           b == SeqTwo(SeqOne(b0, v, 0, m, n, pp, q), m, m + n, n, pp, q)
       IN [i \in 1..n |-> b[i - 1]]

\* the number of 32-bit words of entropy an engine of modulus m reads
RECURSIVE Words(_, _)
Words(m, k) == IF BLess(BPow2(32 * k), m) THEN Words(m, k + 1) ELSE k
RECURSIVE WordSum(_, _)
WordSum(ws, j) == IF j > Len(ws) THEN B0 ELSE BAdd(BShl(ws[j], 32 * (j - 1)), WordSum(ws, j + 1))
ModOf(g) == IF g.k = "lfsr" THEN BPow2(g.w) ELSE g.m
\* (an engine of a type narrower than a word, or of a signed type, reads its single word as a value of that type)
Typed(g) == g.k \in {"lcg", "inv"} /\ g.tb <= 32
AsType(g, w0) == LET w == BLow(w0, g.tb) IN IF g.sg /\ ~BLess(w, BPow2(g.tb - 1)) THEN Z(-1, BSub(BPow2(g.tb), w)) ELSE Z(1, w)
FromWords(g, ws) == IF Typed(g) THEN New(g, AsType(g, ws[1])) ELSE New(g, Z(1, BRem(WordSum(ws, 1), ModOf(g))))
RECURSIVE NewSeq(_, _), NewIt(_, _)        \* from a seed sequence, from a range of words
NewSeq(g, v) ==
  CASE g.k \in {"lcg", "inv", "lfsr"} -> LET k == Words(ModOf(g), 1) IN FromWords(g, SubSeq(SeedSeq(v, k + 3), 4, k + 3))
    [] g.k \in {"xor", "add"} -> <<NewSeq(g.b1, v), NewSeq(g.b2, v)>>
    [] g.k = "shf" -> ShfOf(g, NewSeq(g.b1, v))
NewIt(g, v) ==
  CASE g.k \in {"lcg", "inv", "lfsr"} -> LET k == Words(ModOf(g), 1) IN FromWords(g, SubSeq(v, 1, k))
    [] g.k = "shf" -> ShfOf(g, NewIt(g.b1, v))

----------------------------------------------------------------------------
(* jumping ahead: n steps of an lcg are again an affine map <<A, C>> *)
Compose(h, f, m) == <<MulMod(h[1], f[1], m), BRem(BAdd(BMul(h[1], f[2]), h[2]), m)>>     \* h after f
RECURSIVE Jump(_, _, _)
Jump(f, n, m) == IF n = B0 THEN <<BRem(BOne, m), B0>>
                 ELSE LET h == Jump(f, BHalf(n), m)  hh == Compose(h, h, m) IN IF BEven(n) THEN hh ELSE Compose(f, hh, m)
Discard(g, st, n) == LET f == Jump(<<g.a, g.c>>, n, g.m) IN BRem(BAdd(BMul(f[1], st), f[2]), g.m)

(* the textual form: the words of the state *)
RECURSIVE Text(_, _)
Text(g, st) == CASE g.k \in {"lcg", "inv", "lfsr", "r48"} -> <<st>>
                 [] g.k = "mt" -> st
                 [] g.k \in {"xor", "add"} -> Text(g.b1, st[1]) \o Text(g.b2, st[2])
                 [] g.k = "shf" -> Text(g.b1, st[1]) \o st[2] \o <<st[3]>>
RECURSIVE Load(_, _)                       \* <<state, remaining words>>
Load(g, t) == CASE g.k \in {"lcg", "inv", "lfsr", "r48"} -> <<t[1], Tail(t)>>
                [] g.k = "mt" -> <<SubSeq(t, 1, g.n), SubSeq(t, g.n + 1, Len(t))>>
                [] g.k \in {"xor", "add"} -> LET u == Load(g.b1, t)  v == Load(g.b2, u[2]) IN <<<<u[1], v[1]>>, v[2]>>
                [] g.k = "shf" -> LET u == Load(g.b1, t) IN <<<<u[1], SubSeq(u[2], 1, g.n), u[2][g.n + 1]>>, SubSeq(u[2], g.n + 2, Len(u[2]))>>

InRange(g, x) == ~BLess(x, EMin(g)) /\ ~BLess(EMax(g), x)
=============================================================================
