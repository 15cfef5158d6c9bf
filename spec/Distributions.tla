---------------------------- MODULE Distributions ----------------------------
(* Random distributions as functions of the numbers drawn. A generator with   *)
(* numbers lo..lo+br delivers ks (already without lo, as naturals); a draw    *)
(* gives [ok, v, i]: whether ks sufficed, the value, the next index.          *)
EXTENDS Floats
LOCAL INSTANCE Naturals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

Got(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
More(i) == [ok |-> FALSE, v |-> <<>>, i |-> i]
Inc(a) == BAdd(a, <<1>>)
(* evenly over 0..range *)
RECURSIVE Uni(_, _, _, _), Bucket(_, _, _, _), Digits(_, _, _, _, _, _)
Uni(range, br, ks, i) ==
  IF range = <<>> THEN Got(<<>>, i)
  ELSE IF range = br THEN (IF i > Len(ks) THEN More(i) ELSE Got(ks[i], i + 1))
  ELSE IF BLess(br, range) THEN Digits(range, br, ks, i, <<>>, <<1>>)
  ELSE Bucket(range, BQuo(Inc(br), Inc(range)), ks, i)
\* a larger generator: equal buckets, the remainder rejected
Bucket(range, size, ks, i) ==
  IF i > Len(ks) THEN More(i)
  ELSE LET v == BQuo(ks[i], size) IN IF BLess(range, v) THEN Bucket(range, size, ks, i + 1) ELSE Got(v, i + 1)
\* a smaller generator: digits, then a leading digit of its own
Digits(range, br, ks, i, acc, mult) ==
  IF BLess(BMul(mult, Inc(br)), Inc(Inc(range)))                    \* room for one more digit
    THEN IF i > Len(ks) THEN More(i)
         ELSE LET a == BAdd(acc, BMul(ks[i], mult))  m == BMul(mult, Inc(br)) IN
              IF m = Inc(range) THEN Got(a, i + 1) ELSE Digits(range, br, ks, i + 1, a, m)
    ELSE LET hi == Uni(BQuo(range, mult), br, ks, i) IN
         IF ~hi.ok THEN hi
         ELSE LET v == BAdd(acc, BMul(hi.v, mult)) IN IF BLess(range, v) THEN Uni(range, br, ks, hi.i) ELSE Got(v, hi.i)
(* quickly over 0..range, one number *)
Small(range, br, k) == IF BLess(range, br) THEN BRem(k, Inc(range)) ELSE k

----------------------------------------------------------------------------
(* real numbers, to the precision of their type *)
Prec(t) == Fmt(t).p
FOf(m) == Num(1, m, 0)
AbsF(x) == [x EXCEPT !.s = 1]
SubF(x, y) == AddF(x, NegF(y))
Leq(x, y) == CmpF(x, y) <= 0
\* |x| <= y * 2^-n
Within(x, y, n) == Leq(AbsF(x), IF y.m = <<>> THEN y ELSE [y EXCEPT !.e = y.e - n])
\* the integer engines divide by br + 1, the real ones by br
Den(br, whole) == FOf(IF whole THEN Inc(br) ELSE br)
\* x = k / den up to 2^-n of it
IsQuo(x, k, den, n) == LET w == MulF(x, den) IN Within(SubF(w, FOf(k)), FOf(k), n)
\* k / den rounds to one at precision n
NearOne(k, den, n) == LET d == SubF(den, FOf(k)) IN d.m = <<>> \/ Within(d, den, n)
\* lo + k/den (hi - lo) = x up to 2^-n of the larger limit
Larger(x, y) == IF Leq(AbsF(x), AbsF(y)) THEN AbsF(y) ELSE AbsF(x)
IsReal(x, lo, hi, k, den, n) ==
  LET want == AddF(MulF(lo, den), MulF(SubF(hi, lo), FOf(k)))
  IN Within(SubF(MulF(x, den), want), MulF(Larger(lo, hi), den), n)
\* enough digits in base r for the precision asked
RECURSIVE CanonN(_, _, _)
CanonN(r, bits, m) == IF BLess(m, BPow2(bits)) THEN 1 + CanonN(r, bits, BMul(m, r)) ELSE 0
RECURSIVE DigitSum(_, _, _)
DigitSum(ks, r, i) == IF i > Len(ks) THEN <<>> ELSE BAdd(ks[i], BMul(r, DigitSum(ks, r, i + 1)))
RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN <<1>> ELSE BMul(a, BPow(a, n - 1))

(* failures before the first success, success with probability p, at u = k / d:   *)
(* the g with q^g >= 1 - u > q^(g+1)                                          *)
RECURSIVE PowF(_, _)
PowF(x, n) == IF n = 0 THEN FOf(<<1>>) ELSE LET h == PowF(x, n \div 2)  w == MulF(h, h) IN IF n % 2 = 0 THEN w ELSE MulF(w, x)
Slack == 35
UpF(x) == AddF(x, [x EXCEPT !.e = x.e - Slack])
IsGeo(g, p, k, d) ==
  LET q == SubF(FOf(<<1>>), p)  rest == FOf(BSub(d, k)) IN
  /\ g >= 0
  /\ Leq(rest, UpF(MulF(PowF(q, g), FOf(d))))
  /\ Leq(MulF(PowF(q, g + 1), FOf(d)), UpF(rest))
\* successes in n trials: the x with CDF(x-1) < u <= CDF(x)
RECURSIVE Choose(_, _), BinSum(_, _, _)
Choose(n, k) == IF k = 0 THEN <<1>> ELSE BQuo(BMul(Choose(n, k - 1), BOf(n - k + 1)), BOf(k))
BinP(n, p, x) == MulF(FOf(Choose(n, x)), MulF(PowF(p, x), PowF(SubF(FOf(<<1>>), p), n - x)))
BinSum(n, p, x) == IF x < 0 THEN Zero(1) ELSE AddF(BinSum(n, p, x - 1), BinP(n, p, x))
Tiny(d) == [FOf(d) EXCEPT !.e = FOf(d).e - 34]
BinInv(x, n, p, k, d) == /\ Leq(MulF(BinSum(n, p, x - 1), FOf(d)), AddF(FOf(k), Tiny(d)))
                         /\ Leq(FOf(k), AddF(MulF(BinSum(n, p, x), FOf(d)), Tiny(d)))
Half == Num(1, <<1>>, -1)
IsBin(x, n, p, k, d) == /\ x >= 0 /\ x <= n
                        /\ IF Leq(p, Half) THEN BinInv(x, n, p, k, d) ELSE BinInv(n - x, n, SubF(FOf(<<1>>), p), k, d)
\* the same for a mean: probabilities e^-m m^x / x! in units of 2^-120, m = a / 2^s
RECURSIVE ExpSum(_, _, _), PoiTerms(_, _, _, _)
ExpSum(m, term, i) == IF term = <<>> THEN <<>> ELSE BAdd(term, ExpSum(m, BQuo(BMul(term, m.a), BMul(BOf(i), BPow2(m.sh))), i + 1))
ExpNeg(m) == BQuo(BPow2(240), ExpSum(m, BPow2(120), 1))
PoiTerms(m, term, i, x) == IF i > x THEN <<>> ELSE BAdd(term, PoiTerms(m, BQuo(BMul(term, m.a), BMul(BOf(i + 1), BPow2(m.sh))), i + 1, x))
IsPoi(x, m, k, d) ==
  LET e0 == ExpNeg(m)  u == BQuo(BMul(k, BPow2(120)), d)  slk == BPow2(86) IN
  /\ x >= 0
  /\ ~BLess(BAdd(u, slk), PoiTerms(m, e0, 0, x - 1))
  /\ ~BLess(BAdd(PoiTerms(m, e0, 0, x), slk), u)

(* -ln(y) in units of 2^-96, for 0 < y = num / 2^w <= 1 *)
W96 == 96
RECURSIVE AtanhS(_, _, _)
AtanhS(t, t2, i) == IF t = <<>> THEN <<>> ELSE BAdd(BQuo(t, BOf(i)), AtanhS(BHigh(BMul(t, t2), W96), t2, i + 2))
\* ln(a/b) for a >= b, a < 2 b
LnRatio(a, b) == LET t == BQuo(BShl(BSub(a, b), W96), BAdd(a, b)) IN BShl(AtanhS(t, BHigh(BMul(t, t), W96), 1), 1)
Ln2 == LnRatio(<<2>>, <<1>>)
NegLn(num, w) == LET n == BLen(num) - 1 IN BSub(BMul(BOf(w - n), Ln2), LnRatio(num, BPow2(n)))
=============================================================================
