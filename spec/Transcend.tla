------------------------------ MODULE Transcend ------------------------------
(* The elementary functions as fixed-point arithmetic on 144 fraction bits:   *)
(* every value is an integer (a Z of Big) counted in units of 2^-144.  The    *)
(* constants are derived from their series, the kernels (exp, ln, sine and    *)
(* cosine, error function, Stirling) by argument reduction and Taylor sums.   *)
EXTENDS Floats
FB == 144
One == Z(1, BPow2(FB))
FInt(n) == Z(IF n < 0 THEN -1 ELSE 1, BShl(BOf(IF n < 0 THEN -n ELSE n), FB))
FMul(a, b) == Z(a.s * b.s, BHigh(BMul(a.m, b.m), FB))
FDiv(a, b) == Z(a.s * b.s, BQuo(BShl(a.m, FB), b.m))
FQuo(a, n) == Z(a.s, BQuo1(a.m, n))                      \* by a small number
FTimes(a, n) == Z(IF n < 0 THEN -a.s ELSE a.s, BMul(a.m, BOf(IF n < 0 THEN -n ELSE n)))
FHalf(a) == FQuo(a, 2)
FDown(a, n) == IF n <= 0 THEN Z(a.s, BShl(a.m, -n)) ELSE Z(a.s, BHigh(a.m, n))
(* a number (s, m, e), times 2^-k, in units *)
FixK(x, k) == IF x.m = <<>> THEN Z(1, <<>>) ELSE FDown(Z(x.s, x.m), k - FB - x.e)
Fix(x) == FixK(x, 0)

(* -------------------------------- constants ------------------------------ *)
(* written out; MC_Transcend derives each from its series                     *)
RECURSIVE ArcInv(_, _, _, _)                  \* atan(1/q) or artanh(1/q): t = 1/q^(2k+1)
ArcInv(t, q2, k, alt) == IF t.m = <<>> THEN t
    ELSE LET u == FQuo(t, 2 * k + 1) IN ZAdd(IF alt /\ k % 2 = 1 THEN ZNeg(u) ELSE u, ArcInv(FQuo(t, q2), q2, k + 1, alt))
AtanInv(q) == ArcInv(FQuo(One, q), q * q, 0, TRUE)
ArtanhInv(q) == ArcInv(FQuo(One, q), q * q, 0, FALSE)
PI == Z(1, <<1033, 1098, 115, 55, 2606, 408, 787, 141, 1443, 2184, 3946, 579, 3>>)
LN2 == Z(1, <<243, 2804, 758, 63, 920, 3643, 3017, 1946, 463, 3965, 535, 2839>>)
LN10 == Z(1, <<2623, 2616, 3112, 180, 2222, 1461, 2985, 2821, 2722, 1898, 1591, 1239, 2>>)
HALFPI == Z(1, <<516, 2597, 2105, 27, 1303, 2252, 2441, 2118, 721, 1092, 4021, 2337, 1>>)
(* integer square root by Newton from above *)
RECURSIVE RootC(_, _)
RootC(n, g) == LET h == BHalf(BAdd(g, BQuo(n, g))) IN IF BCmp(h, g) >= 0 THEN g ELSE RootC(n, h)
Root(n) == IF n = <<>> THEN n ELSE RootC(n, BPow2(BLen(n) \div 2 + 1))
FSqrt(a) == Z(1, Root(BShl(a.m, FB)))
SQRTPI == Z(1, <<914, 1022, 2360, 1499, 525, 2821, 2499, 2727, 3830, 436, 3977, 3163, 1>>)

(* --------------------------------- kernels ------------------------------- *)
RECURSIVE ExpSum(_, _, _)
ExpSum(r, t, n) == IF t.m = <<>> THEN t ELSE ZAdd(t, ExpSum(r, FQuo(FMul(t, r), n), n + 1))
RECURSIVE Squares(_, _)
Squares(v, n) == IF n = 0 THEN v ELSE LET w == FMul(v, v) IN Squares(w, n - 1)
(* e^z = v * 2^k, 1 <= v < 2 *)
FExp(z) == LET q == BDivMod(z.m, LN2.m)
               n == BNat(q[1])
               k == IF z.s >= 0 THEN n ELSE IF q[2] = <<>> THEN -n ELSE -n - 1
               r == IF z.s >= 0 THEN Z(1, q[2]) ELSE IF q[2] = <<>> THEN Z(1, <<>>) ELSE ZSub(LN2, Z(1, q[2]))
           IN [v |-> Squares(ExpSum(Z(1, BHigh(r.m, 6)), One, 1), 6), k |-> k]
FExpU(z) == LET w == FExp(z) IN FDown(w.v, -w.k)         \* unscaled
(* ln of a positive number *)
RECURSIVE ArSum(_, _, _)
ArSum(t, t2, k) == IF t.m = <<>> THEN t ELSE ZAdd(FQuo(t, 2 * k + 1), ArSum(FMul(t, t2), t2, k + 1))
FLnM(a) == LET t == FDiv(ZSub(a, One), ZAdd(a, One)) IN FTimes(ArSum(t, FMul(t, t), 0), 2)
SQRT2 == Z(1, <<2782, 995, 1405, 3753, 870, 4017, 2226, 3216, 956, 1663, 2534, 1696, 1>>)
ThreeHalves == Z(1, BAdd(BPow2(FB), BPow2(FB - 1)))
FLn(x) == LET e == BLen(x.m) + x.e - 1
              a == FixK([x EXCEPT !.s = 1], e)           \* in [1, 2)
          IN IF ZLess(ThreeHalves, a) THEN ZAdd(FTimes(LN2, e + 1), FLnM(FHalf(a))) ELSE ZAdd(FTimes(LN2, e), FLnM(a))
LnFix(a) == FLn(Num(1, a.m, -FB))
LnRoot2Pi == Z(1, <<4016, 572, 2336, 1089, 1, 3017, 1172, 2643, 1525, 1074, 3982, 3763>>)
(* sine and cosine *)
RECURSIVE SinSum(_, _, _, _, _)
SinSum(r, t, n, sn, cs) == IF t.m = <<>> THEN [s |-> sn, c |-> cs]
    ELSE LET u == IF n % 4 \in {0, 1} THEN t ELSE ZNeg(t)
         IN SinSum(r, FQuo(FMul(t, r), n + 1), n + 1, IF n % 2 = 1 THEN ZAdd(sn, u) ELSE sn, IF n % 2 = 0 THEN ZAdd(cs, u) ELSE cs)
FSinCos(z) == LET q == BDivMod(z.m, HALFPI.m)
                  w == SinSum(Z(1, q[2]), One, 0, Z(1, <<>>), Z(1, <<>>))
                  j == IF q[1] = <<>> THEN 0 ELSE q[1][1] % 4
                  a == CASE j = 0 -> w [] j = 1 -> [s |-> w.c, c |-> ZNeg(w.s)] [] j = 2 -> [s |-> ZNeg(w.s), c |-> ZNeg(w.c)] [] j = 3 -> [s |-> ZNeg(w.c), c |-> w.s]
              IN IF z.s < 0 THEN [s |-> ZNeg(a.s), c |-> a.c] ELSE a
(* sinh, cosh: scaled by 2^k, from |z| *)
FHyp(z) == LET w == FExp(ZAbs(z)) d == FDown(FDiv(One, w.v), 2 * w.k) sh == FHalf(ZSub(w.v, d))
           IN [s |-> IF z.s < 0 THEN ZNeg(sh) ELSE sh, c |-> FHalf(ZAdd(w.v, d)), k |-> w.k]
(* erf *)
RECURSIVE ErfSum(_, _, _)
ErfSum(t, x2, n) == IF t.m = <<>> THEN t ELSE ZAdd(FQuo(t, 2 * n + 1), ErfSum(ZNeg(FQuo(FMul(t, x2), n + 1)), x2, n + 1))
FErf(z) == FDiv(FTimes(ErfSum(z, FMul(z, z), 0), 2), SQRTPI)
(* ln Gamma of z >= 25 by Stirling's series *)
Stirling == <<<<1, 12>>, <<-1, 360>>, <<1, 1260>>, <<-1, 1680>>, <<1, 1188>>, <<-691, 360360>>, <<1, 156>>, <<-3617, 122400>>, <<43867, 244188>>, <<-174611, 125400>>>>
RECURSIVE StirSum(_, _, _)
StirSum(t, i2, k) == IF k > Len(Stirling) THEN Z(1, <<>>)
    ELSE ZAdd(FQuo(FTimes(t, Stirling[k][1]), Stirling[k][2]), StirSum(FMul(t, i2), i2, k + 1))
FLnGamma(z) == LET i == FDiv(One, z) IN ZAdd(ZAdd(ZSub(FMul(ZSub(z, FHalf(One)), LnFix(z)), z), LnRoot2Pi), StirSum(i, FMul(i, i), 1))
(* x (x+1) ... (x+n-1) *)
RECURSIVE Rising(_, _)
Rising(z, n) == IF n = 0 THEN One ELSE FMul(z, Rising(ZAdd(z, One), n - 1))

(* ------------------------------- tolerance ------------------------------- *)
(* 2^(tol - p) times a magnitude, and a few units for the kernels themselves *)
Slack(t, tol, mag) == BAdd(BHigh(mag, Fmt(t).p - tol), BPow2(40))
BigM(a, b) == IF BLess(a, b) THEN b ELSE a
Mag(v, rel) == IF rel THEN v.m ELSE BigM(v.m, One.m)
Within(a, b, bound) == BCmp(ZSub(a, b).m, bound) <= 0
(* r is v * 2^k up to the tolerance (relative, or absolute below one) *)
IsK(t, tol, rel, r, v, k) == Within(FixK(r, k), v, Slack(t, tol, IF rel \/ k > 200 THEN v.m ELSE BigM(v.m, FDown(One, k).m)))
Is(t, tol, rel, r, v) == Within(Fix(r), v, Slack(t, tol, Mag(v, rel)))
=============================================================================
