------------------------------- MODULE Floats -------------------------------
(* Binary floating point numbers as exact values: [k, s, m, e] with k "n" a   *)
(* number s * m * 2^e (m a Big, odd or zero), "i" an infinity and "q" a NaN.   *)
EXTENDS Big

RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN 0 ELSE 1 + BitsOf(n \div 2)
BLen(a) == IF a = <<>> THEN 0 ELSE 12 * (Len(a) - 1) + BitsOf(a[Len(a)])
RECURSIVE LowZeros(_)
LowZeros(d) == IF d % 2 = 1 THEN 0 ELSE 1 + LowZeros(d \div 2)
RECURSIVE TrailZ(_, _)
TrailZ(a, i) == IF a[i] = 0 THEN 12 + TrailZ(a, i + 1) ELSE LowZeros(a[i])
Num(s, m, e) == IF m = <<>> THEN [k |-> "n", s |-> s, m |-> <<>>, e |-> 0] ELSE LET z == TrailZ(m, 1) IN [k |-> "n", s |-> s, m |-> BHigh(m, z), e |-> e + z]
Inf(s) == [k |-> "i", s |-> s, m |-> <<>>, e |-> 0]
NaN == [k |-> "q", s |-> 1, m |-> <<>>, e |-> 0]
Zero(s) == Num(s, <<>>, 0)
IsNaN(x) == x.k = "q"
IsInf(x) == x.k = "i"
IsNum(x) == x.k = "n"
IsZero(x) == x.k = "n" /\ x.m = <<>>
(* the same value: NaNs are alike; the sign of a zero counts only if zs *)
Alike(x, y, zs) == x.k = y.k /\ (x.k \in {"i"} => x.s = y.s) /\ (x.k = "n" => x.m = y.m /\ x.e = y.e /\ ((zs \/ x.m # <<>>) => x.s = y.s))

(* formats: precision, exponent of the last place of subnormals, exponent bound *)
Fmt(t) == CASE t = "f" -> [p |-> 24, lsb |-> -149, top |-> 128]
            [] t = "d" -> [p |-> 53, lsb |-> -1074, top |-> 1024]
            [] t = "l" -> [p |-> 64, lsb |-> -16445, top |-> 16384]
            [] t = "toy" -> [p |-> 3, lsb |-> -3, top |-> 4]      \* for model checking
Mx(x, y) == IF x > y THEN x ELSE y
Mn(x, y) == IF x < y THEN x ELSE y
(* m / 2^n rounded to the nearest integer, ties to even *)
HalfEven(m, n) == IF n <= 0 THEN BShl(m, -n)
    ELSE LET h == BHigh(m, n) low == BLow(m, n) c == BCmp(low, BPow2(n - 1)) IN IF c < 0 \/ (c = 0 /\ BEven(h)) THEN h ELSE BAdd(h, <<1>>)
(* the number of format t nearest to s * m * 2^e *)
RoundTo(t, s, m, e) ==
    IF m = <<>> THEN Zero(s)
    ELSE LET f == Fmt(t)
             drop == Mx(Mx(BLen(m) - f.p, f.lsb - e), 0)
         IN IF drop > BLen(m) + 1 THEN Zero(s)
            ELSE LET r == Num(s, HalfEven(m, drop), e + drop) IN IF r.m # <<>> /\ BLen(r.m) + r.e > f.top THEN Inf(s) ELSE r
Subnormal(t, x) == IsNum(x) /\ x.m # <<>> /\ BLen(x.m) + x.e <= Fmt(t).lsb + Fmt(t).p - 1

(* ------------------------------ rounding --------------------------------- *)
IntM(x) == IF x.e >= 0 THEN BShl(x.m, x.e) ELSE BHigh(x.m, -x.e)    \* integer part of |x|
IsWhole(x) == x.m = <<>> \/ x.e >= 0
Whole(s, m) == Num(s, m, 0)
TruncM(x) == IntM(x)
FloorM(x) == IF IsWhole(x) \/ x.s > 0 THEN IntM(x) ELSE BAdd(IntM(x), <<1>>)
CeilM(x) == IF IsWhole(x) \/ x.s < 0 THEN IntM(x) ELSE BAdd(IntM(x), <<1>>)
RoundM(x) == IF IsWhole(x) THEN IntM(x) ELSE BHigh(BAdd(x.m, BPow2(-x.e - 1)), -x.e)   \* halves away from zero
WholeM(f, x) == CASE f = "ceil" -> CeilM(x) [] f = "floor" -> FloorM(x) [] f = "trunc" -> TruncM(x) [] f = "round" -> RoundM(x)
RoundF(f, x) == IF IsNum(x) /\ ~IsWhole(x) THEN Whole(x.s, WholeM(f, x)) ELSE x
(* as a b-bit integer: a Big integer, or "min" for what has none *)
RoundZ(f, x) == Z(x.s, WholeM(f, x))
FracF(x) == IF IsNaN(x) THEN x ELSE IF IsInf(x) \/ IsWhole(x) THEN Zero(x.s) ELSE Num(x.s, BLow(x.m, -x.e), x.e)

(* ---------------------------- arithmetic --------------------------------- *)
Align(x, e) == BShl(x.m, x.e - e)
AddF(x, y) == LET e == Mn(IF x.m = <<>> THEN y.e ELSE x.e, IF y.m = <<>> THEN x.e ELSE y.e)
                  z == ZAdd(Z(x.s, IF x.m = <<>> THEN <<>> ELSE Align(x, e)), Z(y.s, IF y.m = <<>> THEN <<>> ELSE Align(y, e)))
              IN Num(IF z.s < 0 THEN -1 ELSE 1, z.m, e)
(* enough of x + y to round it: an addend far below the other only tips the balance *)
AddNear(x, y, far) ==
    IF x.m = <<>> \/ y.m = <<>> THEN AddF(x, y)
    ELSE IF BLen(y.m) + y.e < x.e - far THEN AddF(x, Num(y.s, <<1>>, x.e - far))
    ELSE IF BLen(x.m) + x.e < y.e - far THEN AddF(y, Num(x.s, <<1>>, y.e - far))
    ELSE AddF(x, y)
AddR(x, y) == AddNear(x, y, 150)
NegF(x) == [x EXCEPT !.s = -x.s]
MulF(x, y) == Num(x.s * y.s, BMul(x.m, y.m), x.e + y.e)
SgnF(x) == IF x.m = <<>> THEN 0 ELSE x.s
(* comparison of magnitudes without long shifts *)
CmpMag(x, y) == IF x.m = <<>> \/ y.m = <<>> THEN (IF x.m = y.m THEN 0 ELSE IF x.m = <<>> THEN -1 ELSE 1)
    ELSE LET a == BLen(x.m) + x.e b == BLen(y.m) + y.e IN IF a # b THEN (IF a < b THEN -1 ELSE 1) ELSE LET e == Mn(x.e, y.e) IN BCmp(Align(x, e), Align(y, e))
CmpF(x, y) ==      \* of numbers and infinities
    IF IsInf(x) \/ IsInf(y) THEN (IF IsInf(x) /\ IsInf(y) THEN (IF x.s = y.s THEN 0 ELSE x.s) ELSE IF IsInf(x) THEN x.s ELSE -y.s)
    ELSE IF SgnF(x) # SgnF(y) THEN (IF SgnF(x) < SgnF(y) THEN -1 ELSE 1)
    ELSE LET c == CmpMag(x, y) IN IF x.s < 0 THEN -c ELSE c
(* a * 2^n mod b by digits, for long n *)
RECURSIVE ModShl(_, _, _)
ModShl(r, n, b) == IF n = 0 THEN r ELSE LET k == IF n > 48 THEN 48 ELSE n IN ModShl(BRem(BShl(r, k), b), n - k, b)
(* |x| = n |y| + r * 2^e: [lo: n mod 8, r, y8: |y| in the same unit, e]; both nonzero numbers *)
Divide(x, y) ==
    LET e == Mn(x.e, y.e)
    IN IF x.e >= y.e
         THEN LET b8 == BShl(y.m, 3) r == ModShl(BRem(x.m, b8), x.e - y.e, b8) w == BDivMod(r, y.m) IN [lo |-> BNat(w[1]), r |-> w[2], y |-> y.m, e |-> e]
         ELSE IF y.e - x.e > BLen(x.m) THEN [lo |-> 0, r |-> x.m, y |-> <<>>, e |-> e]      \* |y| > |x|; y not needed unless twice |x| reaches it
         ELSE LET b == Align(y, e) w == BDivMod(x.m, b) IN [lo |-> BNat(BLow(w[1], 3)), r |-> w[2], y |-> b, e |-> e]
FmodF(x, y) ==
    IF IsNaN(x) \/ IsNaN(y) \/ IsInf(x) \/ IsZero(y) THEN NaN
    ELSE IF IsInf(y) \/ IsZero(x) THEN x
    ELSE LET d == Divide(x, y) IN Num(x.s, d.r, d.e)
(* nearest quotient, ties to even: [up, d] *)
Nearer(x, y) == LET d == Divide(x, y) c == IF d.y = <<>> THEN CmpMag(Num(1, x.m, x.e + 1), y) ELSE BCmp(BTwice(d.r), d.y)
                IN [up |-> c > 0 \/ (c = 0 /\ d.lo % 2 = 1), d |-> d]
RemF(x, y) ==
    IF IsNaN(x) \/ IsNaN(y) \/ IsInf(x) \/ IsZero(y) THEN NaN
    ELSE IF IsInf(y) \/ IsZero(x) THEN x
    ELSE LET n == Nearer(x, y) IN IF n.up THEN Num(-x.s, BSub(IF n.d.y = <<>> THEN Align(y, n.d.e) ELSE n.d.y, n.d.r), n.d.e) ELSE Num(x.s, n.d.r, n.d.e)
(* a zero remainder has the sign of x *)
RemZ(x, y) == LET r == RemF(x, y) IN IF IsZero(r) THEN Zero(x.s) ELSE r
QuoLow(x, y) ==
    IF ~IsNum(x) \/ ~IsNum(y) \/ IsZero(x) \/ IsZero(y) THEN 0
    ELSE LET n == Nearer(x, y) IN x.s * y.s * ((n.d.lo + (IF n.up THEN 1 ELSE 0)) % 8)
ExpOf(x) == BLen(x.m) - 1 + x.e
OfInt(n) == LET z == ZOf(n) IN Num(IF n < 0 THEN -1 ELSE 1, z.m, 0)
=============================================================================
