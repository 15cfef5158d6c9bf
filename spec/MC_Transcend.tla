----------------------------- MODULE MC_Transcend -----------------------------
(* The fixed-point functions satisfy the identities that define them.         *)
EXTENDS Transcend, TLC
CONSTANTS Top, Den
VARIABLES x, y, go
Frac(n, d) == FQuo(FInt(n), d)
Init == x \in -Top..Top /\ y \in -Top..Top /\ go = FALSE
Next == ~go /\ go' = TRUE /\ UNCHANGED <<x, y>>
Eps == BPow2(30)                                \* 2^-114
Near(a, b) == Within(a, b, BAdd(Eps, BHigh(BigM(a.m, b.m), 114)))
E1(n) == FExpU(Frac(n, Den))
F(n) == Frac(n, Den)
Sum == Near(FMul(E1(x), E1(y)), E1(x + y))                                     \* e^(x+y) = e^x e^y
Logs == x = y => Near(LnFix(E1(x)), F(x))                                      \* ln e^x = x
Angle == LET a == FSinCos(F(x)) b == FSinCos(F(y)) c == FSinCos(F(x + y))
         IN Near(c.s, ZAdd(FMul(a.s, b.c), FMul(a.c, b.s))) /\ Near(c.c, ZSub(FMul(a.c, b.c), FMul(a.s, b.s)))
            /\ (x = y => Near(ZAdd(FMul(a.s, a.s), FMul(a.c, a.c)), One))
Hyper == x = y => LET a == FHyp(F(x)) IN Near(ZSub(FMul(a.c, a.c), FMul(a.s, a.s)), FDown(One, 2 * a.k)) /\ Near(ZAdd(a.c, a.s), FDown(E1(x), a.k))
Roots == x = y /\ x > 0 => LET s == FSqrt(F(x)) IN Near(FMul(s, s), F(x))
(* erf is odd, increasing, bounded; its slope is the bell curve *)
Bell == x = y => Near(FErf(F(x)), ZNeg(FErf(F(-x)))) /\ (x < Top => ZLess(FErf(F(x)), FErf(F(x + 1)))) /\ ZLess(FErf(F(x)), One)
        /\ LET h == Z(1, BPow2(FB - 36)) d == FDiv(ZSub(FErf(ZAdd(F(x), h)), FErf(ZSub(F(x), h))), FTimes(h, 2))
           IN Within(d, FMul(FDiv(FInt(2), SQRTPI), FExpU(ZNeg(FMul(F(x), F(x))))), BPow2(FB - 60))
(* Gamma(n + 1) = n!, Gamma(z + 1) = z Gamma(z) *)
Factorial == x = y /\ x >= 0 => LET z == ZAdd(FInt(25), F(x)) IN Within(ZAdd(FLnGamma(z), LnFix(z)), FLnGamma(ZAdd(z, One)), BPow2(56))
             /\ Within(FExpU(ZSub(FLnGamma(FInt(x + 41)), LnFix(Rising(FInt(x + 1), 40)))), FInt([i \in 0..6 |-> <<1, 1, 2, 6, 24, 120, 720>>[i + 1]][IF x <= 6 THEN x ELSE 0]), IF x <= 6 THEN BPow2(66) ELSE BPow2(400))
(* the written constants *)
Few(a, b) == Within(a, b, BOf(4096))
Derived == x = 0 /\ y = 0 =>
    /\ Few(PI, ZSub(FTimes(AtanInv(5), 16), FTimes(AtanInv(239), 4))) /\ Few(HALFPI, FHalf(PI))             \* Machin
    /\ Few(LN2, FTimes(ArtanhInv(3), 2)) /\ Few(LN10, ZAdd(FTimes(LN2, 3), FTimes(ArtanhInv(9), 2)))
    /\ Few(SQRT2, FSqrt(FInt(2))) /\ Few(SQRTPI, FSqrt(PI)) /\ Few(LnRoot2Pi, FHalf(LnFix(FTimes(PI, 2))))
Law == go => Derived /\ Sum /\ Logs /\ Angle /\ Hyper /\ Roots /\ Bell /\ Factorial
=============================================================================
