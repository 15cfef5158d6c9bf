---------------------------- MODULE Hypercomplex ----------------------------
(* Real, complex and quaternion numbers: sequences of 1, 2 or 4 integers, each *)
(* algebra the doubling (Cayley-Dickson) of the one before.                   *)
EXTENDS Integers, Sequences

Pad(a) == [k \in 1..4 |-> IF k <= Len(a) THEN a[k] ELSE 0]
AbsZ(n) == IF n < 0 THEN -n ELSE n

(* complex numbers as pairs *)
CAdd2(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CSub2(x, y) == <<x[1] - y[1], x[2] - y[2]>>
CMul2(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
CConj2(x) == <<x[1], -x[2]>>
(* quaternions: pairs of complex numbers, (p,q)(r,s) = (pr - q s', ps + q r'), ' the conjugate and k = ij *)
QLo(a) == <<a[1], a[2]>>
QHi(a) == <<a[3], a[4]>>
QMul(x, y) == LET a == Pad(x) b == Pad(y)
    IN CSub2(CMul2(QLo(a), QLo(b)), CMul2(QHi(a), CConj2(QHi(b)))) \o CAdd2(CMul2(QLo(a), QHi(b)), CMul2(QHi(a), CConj2(QLo(b))))
QAdd(x, y) == LET a == Pad(x) b == Pad(y) IN [k \in 1..4 |-> a[k] + b[k]]
QSub(x, y) == LET a == Pad(x) b == Pad(y) IN [k \in 1..4 |-> a[k] - b[k]]
QNeg(x) == LET a == Pad(x) IN [k \in 1..4 |-> -a[k]]
QConj(x) == LET a == Pad(x) IN <<a[1], -a[2], -a[3], -a[4]>>
QScale(n, x) == LET a == Pad(x) IN [k \in 1..4 |-> n * a[k]]
QDivExact(x, n) == LET a == Pad(x) IN [k \in 1..4 |-> a[k] \div n]
QNorm(x) == LET a == Pad(x) IN a[1] * a[1] + a[2] * a[2] + a[3] * a[3] + a[4] * a[4]
QL1(x) == LET a == Pad(x) IN AbsZ(a[1]) + AbsZ(a[2]) + AbsZ(a[3]) + AbsZ(a[4])
QSup(x) == LET a == Pad(x) IN CHOOSE m \in {AbsZ(a[k]) : k \in 1..4} : \A k \in 1..4 : AbsZ(a[k]) <= m
Same(x, y) == Pad(x) = Pad(y)

(* fixed point: components are multiples of 1/S *)
S == 64
FloorS(n) == (n \div S) * S
CeilS(n) == -FloorS(-n)
TruncS(n) == IF n < 0 THEN CeilS(n) ELSE FloorS(n)
RoundS(n) == IF n < 0 THEN -FloorS(S \div 2 - n) ELSE FloorS(n + S \div 2)
Each(x, f) == LET a == Pad(x) IN [k \in 1..4 |-> CASE f = "ceil" -> CeilS(a[k]) [] f = "floor" -> FloorS(a[k]) [] f = "trunc" -> TruncS(a[k]) [] f = "round" -> RoundS(a[k])]

(* ------------------------------- text ------------------------------------ *)
RECURSIVE SkipBlank(_, _)
SkipBlank(t, p) == IF p <= Len(t) /\ t[p] = 32 THEN SkipBlank(t, p + 1) ELSE p
IsDig(t, p) == p <= Len(t) /\ t[p] >= 48 /\ t[p] <= 57
RECURSIVE Digits(_, _, _)
Digits(t, p, n) == IF IsDig(t, p) THEN Digits(t, p + 1, 10 * n + t[p] - 48) ELSE <<n, p>>
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
None == [ok |-> FALSE, v |-> 0, p |-> 0]
NumAt(t, p0) ==
    LET b == SkipBlank(t, p0)
        neg == b <= Len(t) /\ t[b] = 45
        d == IF neg THEN b + 1 ELSE b
    IN IF ~IsDig(t, d) THEN None
       ELSE LET w == Digits(t, d, 0)
                dot == w[2] <= Len(t) /\ t[w[2]] = 46
                f == IF dot THEN Digits(t, w[2] + 1, w[1]) ELSE w
                k == IF dot THEN f[2] - w[2] - 1 ELSE 0
                m == (f[1] * S) \div Pow10(k)
            IN [ok |-> TRUE, v |-> IF neg THEN -m ELSE m, p |-> f[2]]
ChAt(t, p0) == LET b == SkipBlank(t, p0) IN IF b > Len(t) THEN 0 ELSE t[b]
After(t, p0) == SkipBlank(t, p0) + 1
NoneQ == [ok |-> FALSE, v |-> <<>>, p |-> 0]
Yes(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
(* a complex number: n, (n) or (n,n) *)
ComplexAt(t, p) ==
    IF ChAt(t, p) # 40
      THEN LET n == NumAt(t, p) IN IF n.ok THEN Yes(<<n.v, 0>>, n.p) ELSE NoneQ
      ELSE LET n == NumAt(t, After(t, p))
           IN IF ~n.ok THEN NoneQ
              ELSE IF ChAt(t, n.p) = 41 THEN Yes(<<n.v, 0>>, After(t, n.p))
              ELSE IF ChAt(t, n.p) # 44 THEN NoneQ
              ELSE LET m == NumAt(t, After(t, n.p)) IN IF m.ok /\ ChAt(t, m.p) = 41 THEN Yes(<<n.v, m.v>>, After(t, m.p)) ELSE NoneQ
(* the rest of a quaternion after the complex number v has been read: c, ')' *)
CloseWith(t, a, c) == IF c.ok /\ ChAt(t, c.p) = 41 THEN Yes(a \o c.v, After(t, c.p)) ELSE NoneQ
RECURSIVE Reals(_, _, _)
Reals(t, p, sofar) ==     \* the numbers of (a, b, c, d), at most four
    LET n == NumAt(t, p)
        all == Append(sofar, n.v)
    IN IF ~n.ok THEN NoneQ
       ELSE IF ChAt(t, n.p) = 41 THEN Yes(Pad(all), After(t, n.p))
       ELSE IF ChAt(t, n.p) # 44 \/ Len(all) = 4 THEN NoneQ
       ELSE IF Len(all) = 1 /\ ChAt(t, After(t, n.p)) = 40 THEN CloseWith(t, <<n.v, 0>>, ComplexAt(t, After(t, n.p)))
       ELSE Reals(t, After(t, n.p), all)
QuaternionAt(t, p) ==
    IF ChAt(t, p) # 40 THEN LET n == NumAt(t, p) IN IF n.ok THEN Yes(<<n.v, 0, 0, 0>>, n.p) ELSE NoneQ
    ELSE IF ChAt(t, After(t, p)) = 40
      THEN LET u == ComplexAt(t, After(t, p))
           IN IF ~u.ok THEN NoneQ
              ELSE IF ChAt(t, u.p) = 41 THEN Yes(Pad(u.v), After(t, u.p))
              ELSE IF ChAt(t, u.p) # 44 THEN NoneQ
              ELSE CloseWith(t, u.v, ComplexAt(t, After(t, u.p)))
      ELSE Reals(t, After(t, p), <<>>)
ReadAs(n, t) == IF n = 2 THEN ComplexAt(t, 1) ELSE QuaternionAt(t, 1)

RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE DigitsOf(n \div 10) \o <<48 + (n % 10)>>
IntText(n) == IF n < 0 THEN <<45>> \o DigitsOf(-n) ELSE DigitsOf(n)
RECURSIVE FracText(_)
FracText(m) == IF m = 0 THEN <<>> ELSE <<48 + ((10 * m) \div S)>> \o FracText((10 * m) % S)
NumText(v) == (IF v < 0 THEN <<45>> ELSE <<>>) \o DigitsOf((AbsZ(v) \div S)) \o (IF v % S = 0 THEN <<>> ELSE <<46>> \o FracText(AbsZ(v) % S))
RECURSIVE Joined(_)
Joined(a) == IF Len(a) = 1 THEN NumText(a[1]) ELSE NumText(a[1]) \o <<44>> \o Joined(Tail(a))
TextOf(a) == <<40>> \o Joined(a) \o <<41>>
(* a register machine over these numbers; unscaled integers w1 = w / S divide exactly *)
StepTo(q, f, i, d, w) ==
    LET w1 == QDivExact(w, S)
    IN [q EXCEPT ![d] =
        CASE f = "+w" -> QAdd(q[d], w)
          [] f = "-w" -> QSub(q[d], w)
          [] f = "*w" -> QMul(q[d], w1)
          [] f = "/w" -> QDivExact(QMul(q[d], QConj(w1)), QNorm(w1))
          [] f = "+q" -> QAdd(q[d], q[i])
          [] f = "-q" -> QSub(q[d], q[i])
          [] f = "*q" -> QDivExact(QMul(q[d], q[i]), S)
          [] f = "-1" -> QNeg(q[i])
          [] f = "conj" -> QConj(q[i])
          [] f = "=w" -> Pad(w)
          [] f = "=q" -> q[i]]
=============================================================================
