------------------------------ MODULE Trace_C24 ------------------------------
EXTENDS TraceBase, Floats
B01(b) == IF b THEN 1 ELSE 0
Fn1(f, x) ==
    CASE f \in {"ceil", "floor", "round", "trunc"} -> RoundF(f, x)
      [] f = "ipart" -> RoundF("trunc", x)
      [] f = "fpart" -> FracF(x)
      [] f = "fabs" -> [x EXCEPT !.s = 1]
      [] f = "logb" -> (IF IsNaN(x) THEN x ELSE IF IsInf(x) THEN Inf(1) ELSE IF IsZero(x) THEN Inf(-1) ELSE OfInt(ExpOf(x)))
      [] f = "sig" -> (IF ~IsNum(x) \/ IsZero(x) THEN x ELSE Num(x.s, x.m, -BLen(x.m)))
Fn2(t, f, x, y) ==
    CASE f = "fmod" -> FmodF(x, y)
      [] f = "remainder" -> RemZ(x, y)
      [] f = "fmin" -> (IF IsNaN(x) THEN y ELSE IF IsNaN(y) THEN x ELSE IF CmpF(x, y) <= 0 THEN x ELSE y)
      [] f = "fmax" -> (IF IsNaN(x) THEN y ELSE IF IsNaN(y) THEN x ELSE IF CmpF(x, y) >= 0 THEN x ELSE y)
      [] f = "fdim" -> (IF IsNaN(x) \/ IsNaN(y) THEN NaN ELSE IF CmpF(x, y) <= 0 THEN Zero(1) ELSE IF IsInf(x) \/ IsInf(y) THEN Inf(1) ELSE LET d == AddR(x, NegF(y)) IN RoundTo(t, d.s, d.m, d.e))
      [] f = "copysign" -> [x EXCEPT !.s = y.s]
FmaF(t, x, y, z) ==
    IF IsNaN(x) \/ IsNaN(y) \/ IsNaN(z) THEN NaN
    ELSE IF IsInf(x) \/ IsInf(y) THEN (IF IsZero(x) \/ IsZero(y) \/ (IsInf(z) /\ z.s # x.s * y.s) THEN NaN ELSE Inf(x.s * y.s))
    ELSE IF IsInf(z) THEN z
    ELSE LET w == AddR(MulF(x, y), z) IN RoundTo(t, w.s, w.m, w.e)
InBits(z, b) == IF z.s < 0 THEN BCmp(z.m, BPow2(b - 1)) <= 0 ELSE BCmp(z.m, BPow2(b - 1)) < 0
Cmp6(u, cc) == <<B01(~u /\ cc < 0), B01(~u /\ cc <= 0), B01(~u /\ cc > 0), B01(~u /\ cc >= 0), B01(~u /\ cc # 0), B01(u)>>
Class(t, x) == IF IsNaN(x) THEN "q" ELSE IF IsInf(x) THEN "i" ELSE IF IsZero(x) THEN "z" ELSE IF Subnormal(t, x) THEN "s" ELSE "n"
(* tolerant comparison: equal if equal, different beyond twice the tolerance *)
FarApart(t, x, y) == LET d == AddR(x, NegF(y)) one == Num(1, <<1>>, 0)
                         big == IF CmpMag(x, y) < 0 THEN y ELSE x
                         mm == IF CmpMag(big, one) < 0 THEN one ELSE big
                     IN CmpMag(d, Num(1, mm.m, mm.e + 2 - Fmt(t).p)) > 0
Relations(eq, cc) == <<B01(eq), B01(~eq), B01(~eq /\ cc < 0), B01(eq \/ cc < 0), B01(~eq /\ cc > 0), B01(eq \/ cc > 0)>>
Accept(e) ==
    CASE e.o = "f1" -> Alike(e.r, Fn1(e.fn, e.x), e.bi)
      [] e.o = "i1" -> IF ~IsNum(e.x) THEN e.r = Z(-1, BPow2(e.b - 1))      \* by the library's convention; C leaves it open
                       ELSE LET z == RoundZ(e.fn, e.x) IN InBits(z, e.b) => e.r = z
      [] e.o = "e1" -> e.r = (IF IsNum(e.x) /\ ~IsZero(e.x) THEN (IF e.fn = "exp" THEN ExpOf(e.x) + 1 ELSE ExpOf(e.x))
                              ELSE IF e.fn = "exp" THEN 0 ELSE IF IsInf(e.x) THEN 999999 ELSE -999999)
      [] e.o = "f2" -> Alike(e.r, Fn2(e.t, e.fn, e.x, e.y), e.bi /\ e.fn \notin {"fmin", "fmax"}) 
                       \/ (e.fn = "copysign" /\ ~e.bi /\ (IsZero(e.y) \/ IsNaN(e.y)) /\ e.r.k = e.x.k /\ e.r.m = e.x.m /\ e.r.e = e.x.e)
      [] e.o = "quo" -> \A k \in 1..Len(e.r) : e.r[k] = QuoLow(e.x, e.y)
      [] e.o = "sc" -> Alike(e.r, IF IsNum(e.x) THEN RoundTo(e.t, e.x.s, e.x.m, e.x.e + e.n) ELSE e.x, TRUE)
      [] e.o = "fma" -> Alike(e.r, FmaF(e.t, e.x, e.y, e.z), FALSE) \/ (~e.bi /\ IsNum(e.x) /\ IsNum(e.y) /\ ~IsNaN(e.z) /\ LET w == MulF(e.x, e.y) IN ~Alike(RoundTo(e.t, w.s, w.m, w.e), w, FALSE))
      [] e.o = "cls" -> LET cc == Class(e.t, e.x) whole == IsNum(e.x) /\ IsWhole(e.x) odd == whole /\ e.x.m # <<>> /\ e.x.e = 0
                        IN /\ e.c = cc
                           /\ e.r = <<B01(cc = "q"), B01(cc = "i"), B01(cc \in {"n", "s", "z"}), B01(cc = "n"), B01(cc = "s"), B01(cc = "z")>>
                           /\ (cc = "q" \/ (cc = "z" /\ ~e.bi) \/ e.sg = (e.x.s < 0))
                           /\ e.ieo[1] = B01(whole)
                           /\ e.ieo[2] = B01(whole /\ ~odd) /\ e.ieo[3] = B01(odd)
      [] e.o = "cmp" -> LET u == IsNaN(e.x) \/ IsNaN(e.y) IN e.r = Cmp6(u, IF u THEN 0 ELSE CmpF(e.x, e.y))
      [] e.o = "apx" -> LET cc == CmpF(e.x, e.y) eq == e.r[1] = 1 IN (cc = 0 => eq) /\ (FarApart(e.t, e.x, e.y) => ~eq) /\ e.r = Relations(eq, cc) /\ e.c = (IF eq THEN 0 ELSE cc)
      [] e.o = "icm" -> LET cc == ZCmp(e.x, e.y) IN e.r = Relations(cc = 0, cc) /\ e.c = cc
      [] OTHER -> FALSE
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
