------------------------------ MODULE Trace_C22 ------------------------------
EXTENDS TraceBase, Rationals, Big
(* r is the number num/den, in lowest terms with a positive denominator *)
Exact(r, num, den) == r[2].s = 1 /\ BGcd(r[1].m, r[2].m) = <<1>> /\ ZMul(r[1], den) = ZMul(num, r[2])
ZRel(x, y) == LET k == ZCmp(ZMul(x[1], y[2]), ZMul(y[1], x[2])) IN <<B01(k < 0), B01(k > 0), B01(k <= 0), B01(k >= 0), B01(k = 0), B01(k # 0)>>
BinNum(f, a, b) == CASE f = "+" -> ZAdd(ZMul(a[1], b[2]), ZMul(b[1], a[2])) [] f = "-" -> ZSub(ZMul(a[1], b[2]), ZMul(b[1], a[2])) [] f = "*" -> ZMul(a[1], b[1]) [] f = "/" -> ZMul(a[1], b[2])
BinDen(f, a, b) == IF f = "/" THEN ZMul(a[2], b[1]) ELSE ZMul(a[2], b[2])
Accept(e) ==
    CASE e.o = "gcd" -> e.g = [k \in 1..4 |-> Gcd(e.a, e.b)] /\ e.l = [k \in 1..4 |-> Lcm(e.a, e.b)]
      [] e.o = "bgcd" -> LET g == BGcd(e.a.m, e.b.m) IN e.g = Z(1, g) /\ (e.hasl => e.l = (IF e.a.s * e.b.s = 0 THEN ZOf(0) ELSE Z(1, BMul(BQuo(e.a.m, g), e.b.m))))
      [] e.o = "iabs" -> e.r = [k \in 1..5 |-> AbsI(e.a)]
      [] e.o = "div" -> e.r = [k \in 1..5 |-> <<QuoT(e.a, e.b), RemT(e.a, e.b)>>]
      [] e.o = "brel" -> e.r = ZRel(e.a, e.b)
      [] e.o = "bbin" -> Exact(e.r, BinNum(e.f, e.a, e.b), BinDen(e.f, e.a, e.b)) /\ e.c = e.r
      [] e.o = "bmk" -> Exact(e.r, e.n, e.d)
      [] OTHER -> FALSE
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
