------------------------------ MODULE Trace_C37 ------------------------------
EXTENDS TraceBase, Transcend
(* --------------------- where the value is exactly defined ---------------- *)
One1 == Num(1, <<1>>, 0)
IsOne(x) == IsNum(x) /\ x.m = <<1>> /\ x.e = 0 /\ x.s = 1
IsMinusOne(x) == IsNum(x) /\ x.m = <<1>> /\ x.e = 0 /\ x.s = -1
Neg(x) == x.s < 0 /\ ~IsZero(x)
AboveOne(x) == IsInf(x) \/ CmpMag(x, One1) > 0
None == [k |-> "-"]                         \* no special value here
Inexact(v) == [k |-> "~", v |-> v]          \* a special value that must be rounded
Sp1(f, x) ==
    IF IsNaN(x) THEN NaN
    ELSE CASE f \in {"exp", "exp2", "exp10"} -> (IF IsInf(x) THEN (IF x.s > 0 THEN x ELSE Zero(1)) ELSE IF IsZero(x) THEN One1 ELSE None)
      [] f = "expm1" -> (IF IsInf(x) THEN (IF x.s > 0 THEN x ELSE Num(-1, <<1>>, 0)) ELSE IF IsZero(x) THEN x ELSE None)
      [] f \in {"log", "log2", "log10"} -> (IF IsZero(x) THEN Inf(-1) ELSE IF Neg(x) THEN NaN ELSE IF IsInf(x) THEN x ELSE IF IsOne(x) THEN Zero(1) ELSE None)
      [] f = "log1p" -> (IF IsZero(x) THEN x ELSE IF IsMinusOne(x) THEN Inf(-1) ELSE IF Neg(x) /\ AboveOne(x) THEN NaN ELSE IF IsInf(x) THEN x ELSE None)
      [] f = "sqrt" -> (IF IsZero(x) THEN x ELSE IF Neg(x) THEN NaN ELSE IF IsInf(x) THEN x ELSE None)
      [] f \in {"cbrt", "sinh", "asinh"} -> (IF IsZero(x) \/ IsInf(x) THEN x ELSE None)
      [] f \in {"sin", "tan"} -> (IF IsInf(x) THEN NaN ELSE IF IsZero(x) THEN x ELSE None)
      [] f = "cos" -> (IF IsInf(x) THEN NaN ELSE IF IsZero(x) THEN One1 ELSE None)
      [] f = "asin" -> (IF AboveOne(x) THEN NaN ELSE IF IsZero(x) THEN x ELSE None)
      [] f = "acos" -> (IF AboveOne(x) THEN NaN ELSE IF IsOne(x) THEN Zero(1) ELSE None)
      [] f = "atan" -> (IF IsInf(x) THEN Inexact(Z(x.s, HALFPI.m)) ELSE IF IsZero(x) THEN x ELSE None)
      [] f = "cosh" -> (IF IsInf(x) THEN Inf(1) ELSE IF IsZero(x) THEN One1 ELSE None)
      [] f \in {"tanh", "erf"} -> (IF IsInf(x) THEN Num(x.s, <<1>>, 0) ELSE IF IsZero(x) THEN x ELSE None)
      [] f = "acosh" -> (IF Neg(x) \/ IsZero(x) \/ ~(IsInf(x) \/ CmpMag(x, One1) >= 0) THEN NaN ELSE IF IsInf(x) THEN x ELSE IF IsOne(x) THEN Zero(1) ELSE None)
      [] f = "atanh" -> (IF AboveOne(x) THEN NaN ELSE IF IsOne(x) \/ IsMinusOne(x) THEN Inf(x.s) ELSE IF IsZero(x) THEN x ELSE None)
      [] f = "erfc" -> (IF IsInf(x) THEN (IF x.s > 0 THEN Zero(1) ELSE Num(1, <<1>>, 1)) ELSE IF IsZero(x) THEN One1 ELSE None)
      [] f = "tgamma" -> (IF IsZero(x) THEN Inf(x.s) ELSE IF IsInf(x) THEN (IF x.s > 0 THEN x ELSE NaN) ELSE IF Neg(x) /\ IsWhole(x) THEN NaN ELSE None)
      [] f = "lgamma" -> (IF IsInf(x) \/ IsZero(x) \/ (Neg(x) /\ IsWhole(x)) THEN Inf(1) ELSE IF x.e >= 0 /\ Len(x.m) = 1 /\ x.e + x.m[1] <= 2 THEN Zero(1) ELSE None)
      [] f = "sigmoid" -> (IF IsInf(x) THEN (IF x.s > 0 THEN One1 ELSE Zero(1)) ELSE IF IsZero(x) THEN Num(1, <<1>>, -1) ELSE None)
Odd(y) == IsNum(y) /\ y.m # <<>> /\ y.e = 0
Sp2(f, x, y) ==
    CASE f = "pow" ->
        (IF IsOne(x) \/ IsZero(y) THEN One1 ELSE IF IsNaN(x) \/ IsNaN(y) THEN NaN
         ELSE IF IsZero(x) THEN (IF Neg(y) THEN Inf(IF Odd(y) THEN x.s ELSE 1) ELSE Zero(IF Odd(y) THEN x.s ELSE 1))
         ELSE IF IsInf(y) THEN (IF IsMinusOne(x) THEN One1 ELSE IF AboveOne(x) = (y.s > 0) THEN Inf(1) ELSE Zero(1))
         ELSE IF IsInf(x) THEN (IF y.s > 0 THEN Inf(IF Odd(y) THEN x.s ELSE 1) ELSE Zero(IF Odd(y) THEN x.s ELSE 1))
         ELSE IF Neg(x) /\ ~IsWhole(y) THEN NaN ELSE None)
      [] f = "hypot" -> (IF IsInf(x) \/ IsInf(y) THEN Inf(1) ELSE IF IsNaN(x) \/ IsNaN(y) THEN NaN ELSE IF IsZero(x) THEN [y EXCEPT !.s = 1] ELSE IF IsZero(y) THEN [x EXCEPT !.s = 1] ELSE None)
      [] f = "atan2" ->                     \* atan2(x, y): the angle of the point (y, x)
        (IF IsNaN(x) \/ IsNaN(y) THEN NaN
         ELSE IF IsZero(x) THEN (IF y.s < 0 THEN Inexact(Z(x.s, PI.m)) ELSE Zero(x.s))
         ELSE IF IsInf(x) THEN (IF IsInf(y) THEN Inexact(Z(x.s, FTimes(FQuo(PI, 4), IF y.s > 0 THEN 1 ELSE 3).m)) ELSE Inexact(Z(x.s, HALFPI.m)))
         ELSE IF IsInf(y) THEN (IF y.s > 0 THEN Zero(x.s) ELSE Inexact(Z(x.s, PI.m)))
         ELSE IF IsZero(y) THEN Inexact(Z(x.s, HALFPI.m)) ELSE None)
      [] OTHER -> IF IsNaN(x) \/ IsNaN(y) THEN NaN ELSE None

(* -------------------------------- the values ----------------------------- *)
Tol(f, t, bi, x) ==
    CASE f \in {"lgamma"} -> (IF t = "l" THEN 16 ELSE IF t = "f" \/ x.s > 0 THEN 6 ELSE 14)     \* never a builtin; coefficients of a double
      [] f = "exp10" -> (IF t = "f" THEN 5 ELSE 10)                                              \* through exp of a rounded product
      [] f \in {"log_a", "sigmoid"} -> (IF bi THEN 5 ELSE 7)
      [] bi \/ t = "f" -> 5
      [] f \in {"erf", "erfc", "asin", "acos", "tgamma"} -> (IF t = "l" THEN 13 ELSE 7)
      [] f \in {"sin", "cos", "tan", "exp", "exp2", "pow", "sinh", "cosh", "cbrt"} -> 11
      [] OTHER -> 6
Lift(a, n) == Z(a.s, BShl(a.m, n))
(* |f(r) - x| <= d * f' + d^2 * f'': the argument of an inverse function, d the tolerance of the result *)
Inverse(fr, x, d, slope, curve) == Within(fr, x, BAdd(BAdd(FMul(Z(1, d), slope).m, FMul(Z(1, d), FMul(Z(1, d), curve)).m), BPow2(40)))
Shift(x) == IF x.s < 0 THEN 40 ELSE IF CmpMag(x, Num(1, <<25>>, 0)) < 0 THEN 25 ELSE 0   \* into the reach of Stirling
Approx1(f, t, bi, x, r) ==
    LET tol == Tol(f, t, bi, x)
        rel == bi /\ f \notin {"lgamma", "sigmoid", "exp10"}
        z == Fix(x)
        rz == Fix(r)
        del == Slack(t, tol, Mag(rz, rel))
        okx(w, k) == IsK(t, tol, rel \/ f \in {"exp", "exp2", "exp10"}, r, w, k)
    IN CASE f = "exp" -> (LET w == FExp(z) IN okx(w.v, w.k))
         [] f = "exp2" -> (LET w == FExp(FMul(z, LN2)) IN okx(w.v, w.k))
         [] f = "exp10" -> (LET w == FExp(FMul(z, LN10)) IN okx(w.v, w.k))
         [] f = "expm1" -> (LET w == FExp(z) IN IF w.k > 30 THEN IsK(t, tol, rel, r, ZSub(w.v, FDown(One, w.k)), w.k) ELSE Is(t, tol, rel, r, ZSub(FDown(w.v, -w.k), One)))
         [] f = "log" -> Is(t, tol, rel, r, FLn(x))
         [] f = "log2" -> Is(t, tol, rel, r, FDiv(FLn(x), LN2))
         [] f = "log10" -> Is(t, tol, rel, r, FDiv(FLn(x), LN10))
         [] f = "log1p" -> Is(t, tol, rel, r, FLn(AddF(x, One1)))
         [] f = "sqrt" -> (LET q == MulF(r, r) k == BLen(x.m) + x.e IN r.s > 0 /\ Within(FixK(q, k), FixK(x, k), Slack(t, tol + 1, One.m)))
         [] f = "cbrt" -> (LET q == MulF(r, MulF(r, r)) k == BLen(x.m) + x.e IN Within(FixK(q, k), FixK(x, k), Slack(t, tol + 2, One.m)))
         [] f = "sin" -> Is(t, tol, rel, r, FSinCos(z).s)
         [] f = "cos" -> Is(t, tol, rel, r, FSinCos(z).c)
         [] f = "tan" -> (LET w == FSinCos(z) v == FDiv(w.s, w.c) IN IF rel THEN Is(t, tol, TRUE, r, v) ELSE Within(rz, v, Slack(t, tol, ZAdd(One, FMul(v, v)).m)))
         [] f = "asin" -> (LET w == FSinCos(rz) IN BCmp(rz.m, BAdd(HALFPI.m, del)) <= 0 /\ Inverse(w.s, z, del, ZAbs(w.c), One))
         [] f = "acos" -> (LET w == FSinCos(rz) IN r.s > 0 /\ BCmp(rz.m, BAdd(PI.m, del)) <= 0 /\ Inverse(w.c, z, del, ZAbs(w.s), One))
         [] f = "atan" -> (LET w == FSinCos(rz) IN BCmp(rz.m, BAdd(HALFPI.m, del)) <= 0 /\ Within(FMul(z, w.c), w.s, BAdd(FMul(Z(1, del), ZAdd(ZAbs(w.c), FMul(ZAbs(z), ZAbs(w.s)))).m, BPow2(40))))
         [] f = "sinh" -> (LET w == FHyp(z) IN IsK(t, tol, rel, r, w.s, w.k))
         [] f = "cosh" -> (LET w == FHyp(z) IN IsK(t, tol, rel, r, w.c, w.k))
         [] f = "tanh" -> (LET w == FHyp(z) IN Is(t, tol, rel, r, FDiv(w.s, w.c)))
         [] f = "asinh" -> (LET w == FHyp(rz) IN Inverse(w.s, FixK(x, w.k), del, w.c, w.c))
         [] f = "acosh" -> (LET w == FHyp(rz) IN r.s > 0 /\ Inverse(w.c, FixK(x, w.k), del, ZAbs(w.s), w.c))
         [] f = "atanh" -> (LET w == FHyp(rz) IN Within(FMul(z, w.c), w.s, BAdd(FMul(Z(1, del), ZAbs(ZSub(w.c, FMul(z, w.s)))).m, BPow2(40))))
         [] f = "erf" -> Is(t, tol, rel, r, FErf(z))
         [] f = "erfc" -> Is(t, tol, rel, r, ZSub(One, FErf(z)))
         [] f = "tgamma" -> (LET n == Shift(x) g == FExp(FLnGamma(ZAdd(z, FInt(n)))) pr == Rising(z, n) IN Within(FDown(FMul(rz, pr), g.k), g.v, BAdd(BHigh(g.v.m, Fmt(t).p - tol), BAdd(IF rel THEN <<>> ELSE FDown(FMul(Z(1, BHigh(One.m, Fmt(t).p - tol)), ZAbs(pr)), g.k).m, BPow2(66)))))
         [] f = "lgamma" -> (LET n == Shift(x) a == FLnGamma(ZAdd(z, FInt(n))) IN Within(ZAdd(rz, LnFix(ZAbs(Rising(z, n)))), a, BAdd(del, BPow2(66))))
         [] f = "sigmoid" -> (LET w == FExpU(ZNeg(z)) IN Is(t, tol, rel, r, FDiv(One, ZAdd(One, w))))
(* pow: |x|^y scaled *)
Approx2(f, t, bi, x, y, r) ==
    CASE f = "pow" -> (LET w == FExp(FMul(Fix(y), FLn(x))) IN r.s = (IF x.s < 0 /\ Odd(y) THEN -1 ELSE 1) /\ IsK(t, Tol(f, t, bi, x), TRUE, [r EXCEPT !.s = 1], w.v, w.k))
      [] f = "hypot" -> (LET q == MulF(r, r) s == AddF(MulF(x, x), MulF(y, y)) k == BLen(s.m) + s.e IN r.s > 0 /\ Within(FixK(q, k), FixK(s, k), Slack(t, Tol(f, t, bi, x) + 1, One.m)))
      [] f = "atan2" -> (LET rz == Fix(r) w == FSinCos(rz) k == Mx(BLen(x.m) + x.e, BLen(y.m) + y.e) a == FixK(x, k) b == FixK(y, k) del == Slack(t, Tol(f, t, bi, x), Mag(rz, bi))
                             along == ZAdd(FMul(a, w.s), FMul(b, w.c))          \* towards the point
                         IN BCmp(rz.m, BAdd(PI.m, del)) <= 0 /\ along.s > 0 /\ Within(FMul(a, w.c), FMul(b, w.s), BAdd(FMul(Z(1, del), along).m, BPow2(40))))
      [] f = "log_a" -> Is(t, Tol(f, t, bi, x), FALSE, r, FDiv(FLn(y), FLn(x)))
      [] f = "sigmoid" -> (LET w == FExpU(ZNeg(FMul(Fix(x), Fix(y)))) IN Is(t, Tol(f, t, bi, x) + 2, FALSE, r, FDiv(One, ZAdd(One, w))))
      [] f = "d_sigmoid" -> (LET w == FExpU(ZNeg(FMul(Fix(x), Fix(y)))) v == FDiv(One, ZAdd(One, w)) IN Is(t, 9, FALSE, r, FMul(Fix(y), FMul(v, ZSub(One, v)))))
Const(f) ==
    CASE f = "pi" -> PI [] f = "half_pi" -> HALFPI [] f = "third_pi" -> FQuo(PI, 3) [] f = "two_thirds_pi" -> FQuo(FTimes(PI, 2), 3)
      [] f = "quarter_pi" -> FQuo(PI, 4) [] f = "three_quarters_pi" -> FQuo(FTimes(PI, 3), 4) [] f = "two_pi" -> FTimes(PI, 2) [] f = "four_pi" -> FTimes(PI, 4)
      [] f = "two_div_pi" -> FDiv(FInt(2), PI) [] f = "root_two_div_pi" -> FSqrt(FDiv(FInt(2), PI)) [] f = "root_pi" -> SQRTPI [] f = "one_div_root_pi" -> FDiv(One, SQRTPI)
      [] f = "root_one_div_pi" -> FDiv(One, SQRTPI) [] f = "two_div_root_pi" -> FDiv(FInt(2), SQRTPI) [] f = "half" -> FHalf(One) [] f = "quarter" -> FQuo(One, 4)
      [] f = "third" -> FQuo(One, 3) [] f = "two_thirds" -> FQuo(FInt(2), 3) [] f = "root_two" -> SQRT2 [] f = "root_three" -> FSqrt(FInt(3)) [] f = "half_root_two" -> FHalf(SQRT2)
      [] f = "e" -> FExpU(One) [] f = "ln_ten" -> LN10 [] f = "ln_two" -> LN2 [] f = "phi" -> FHalf(ZAdd(One, FSqrt(FInt(5))))
Meets(sp, t, bi, r, approx) ==
    CASE sp.k = "-" -> approx
      [] sp.k = "~" -> IsNum(r) /\ Is(t, 5, TRUE, r, sp.v)
      [] OTHER -> Alike(r, sp, FALSE)
(* beyond the range of the format: infinite, or zero or nearly so *)
Beyond(e) == IF e.top > 0 THEN Alike(e.r, Inf(e.sg), FALSE) ELSE IsNum(e.r) /\ (IsZero(e.r) \/ BLen(e.r.m) + e.r.e <= Fmt(e.t).lsb + 64)
(* without the builtins the sign of a zero argument is not seen (documented in the headers) *)
Arg(x, bi) == IF ~bi /\ IsZero(x) THEN Zero(1) ELSE x
Accept(e) ==
    CASE e.o = "m1" -> LET sp == Sp1(e.fn, Arg(e.x, e.bi)) IN Meets(sp, e.t, e.bi, e.r, IsNum(e.r) /\ (sp.k = "-" => Approx1(e.fn, e.t, e.bi, e.x, e.r)))
      [] e.o = "m2" -> LET sp == Sp2(e.fn, Arg(e.x, e.bi), Arg(e.y, e.bi)) IN Meets(sp, e.t, e.bi, e.r, IsNum(e.r) /\ (sp.k = "-" => Approx2(e.fn, e.t, e.bi, e.x, e.y, e.r)))
      [] e.o = "out" -> Beyond(e)
      [] e.o = "kc" -> IsNum(e.r) /\ Is(e.t, 1, TRUE, e.r, Const(e.fn))
      \* n! from (n-1)!, both rounded
      [] e.o = "fact" -> LET w == BMul(e.a.m, BOf(e.n)) k == BLen(w) + e.a.e IN Within(FixK(e.r, k), FixK(Num(1, w, e.a.e), k), Slack(e.t, 1, One.m))
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
