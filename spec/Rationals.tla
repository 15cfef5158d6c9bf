------------------------------ MODULE Rationals ------------------------------
(* Exact rational arithmetic on pairs <<n, d>>, d > 0, in lowest terms, and   *)
(* registers of such numbers under assignments that may refuse (throw).       *)
EXTENDS Naturals, Integers, Sequences

AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GcdN(_, _)
GcdN(a, b) == IF b = 0 THEN a ELSE GcdN(b, a % b)
Gcd(a, b) == GcdN(AbsI(a), AbsI(b))
Lcm(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE (AbsI(a) \div Gcd(a, b)) * AbsI(b)
QuoT(a, b) == LET q == AbsI(a) \div AbsI(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q       \* towards zero
RemT(a, b) == a - b * QuoT(a, b)
Norm(n, d) == LET g == Gcd(n, d)  s == IF d < 0 THEN -1 ELSE 1 IN <<s * QuoT(n, g), s * QuoT(d, g)>>      \* d # 0
RI(n) == <<n, 1>>
RAdd(x, y) == Norm(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
RSub(x, y) == Norm(x[1] * y[2] - y[1] * x[2], x[2] * y[2])
RMul(x, y) == Norm(x[1] * y[1], x[2] * y[2])
RDiv(x, y) == Norm(x[1] * y[2], x[2] * y[1])                                              \* y # 0
RNeg(x) == <<-x[1], x[2]>>
RAbs(x) == <<AbsI(x[1]), x[2]>>
RLess(x, y) == x[1] * y[2] < y[1] * x[2]
B01(b) == IF b THEN 1 ELSE 0
Rel(x, y) == <<B01(RLess(x, y)), B01(RLess(y, x)), B01(~RLess(y, x)), B01(~RLess(x, y)), B01(x = y), B01(x # y)>>

(* operand of an operation that needs a non-zero right-hand side *)
Divisor(q, f, i, j, d, n) == CASE f = "/" -> q[j] [] f \in {"/n", "/=n"} -> RI(n) [] f = "/=" -> q[i] [] f = "n/" -> q[j] [] OTHER -> RI(1)
Refused(q, f, i, j, d, n, m) == (f \in {"set", "assign"} /\ m = 0) \/ Divisor(q, f, i, j, d, n)[1] = 0
Value(q, f, i, j, d, n, m) ==
    CASE f \in {"set", "assign"} -> Norm(n, m)
      [] f \in {"int", "conv"} -> RI(n)
      [] f = "copy" -> q[i]
      [] f = "+" -> RAdd(q[i], q[j]) [] f = "-" -> RSub(q[i], q[j]) [] f = "*" -> RMul(q[i], q[j]) [] f = "/" -> RDiv(q[i], q[j])
      [] f = "+n" -> RAdd(q[i], RI(n)) [] f = "-n" -> RSub(q[i], RI(n)) [] f = "*n" -> RMul(q[i], RI(n)) [] f = "/n" -> RDiv(q[i], RI(n))
      [] f = "+=" -> RAdd(q[d], q[i]) [] f = "-=" -> RSub(q[d], q[i]) [] f = "*=" -> RMul(q[d], q[i]) [] f = "/=" -> RDiv(q[d], q[i])
      [] f = "+=n" -> RAdd(q[d], RI(n)) [] f = "-=n" -> RSub(q[d], RI(n)) [] f = "*=n" -> RMul(q[d], RI(n)) [] f = "/=n" -> RDiv(q[d], RI(n))
      [] f = "n+" -> RAdd(RI(n), q[j]) [] f = "n-" -> RSub(RI(n), q[j]) [] f = "n*" -> RMul(RI(n), q[j]) [] f = "n/" -> RDiv(RI(n), q[j])
      [] f = "neg" -> RNeg(q[i]) [] f = "abs" -> RAbs(q[i])
      [] f \in {"++", "x++"} -> RAdd(q[d], RI(1)) [] f \in {"--", "x--"} -> RSub(q[d], RI(1))
Apply(q, f, i, j, d, n, m) == IF Refused(q, f, i, j, d, n, m) THEN q ELSE [q EXCEPT ![d] = Value(q, f, i, j, d, n, m)]

(* text: numerator / denominator in decimal *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
DecI(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE Dec(n)
Text(x) == DecI(x[1]) \o <<47>> \o DecI(x[2])
=============================================================================
