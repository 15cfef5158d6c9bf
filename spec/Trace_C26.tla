------------------------------ MODULE Trace_C26 ------------------------------
(* Single draws, and the ways of asking for them, against Distributions.      *)
EXTENDS TraceBase, Distributions
B01(b) == IF b THEN 1 ELSE 0
ZOff(a, v) == ZAdd(a, Z(1, v))                                 \* a plus a natural number
RangeOf(e) == ZSub(e.b, e.a).m
N64 == 4096 * 4096                                              \* enough bits of 2^32 for the integer generator
D32 == BPow2(32)
D53 == BPow2(53)
LastK(e) == e.ks[Len(e.ks)]
Rejected(e, Q(_)) == \A i \in 1..(Len(e.ks) - 1) : Q(e.ks[i])
Sq(x) == MulF(x, x)
Near(x, y, n, big) == Within(SubF(x, y), big, n)                \* |x - y| <= big 2^-n
One == FOf(<<1>>)
\* z1, z2 from the numbers k1, k2 of 32 bits, for mean mu and deviation sg
NormPair(mu, sg, z1, z2, k1, k2) ==
  LET co == SubF(z1, mu)  si == SubF(z2, mu)
      rho2 == Num(1, NegLn(BSub(D32, k2), 32), 1 - W96)         \* -2 ln(1 - k2/2^32)
      want == MulF(Sq(sg), rho2)  size == AddF(AddF(Sq(mu), want), Sq(sg))
      tol == [size EXCEPT !.e = size.e - 44]
      oct == BQuo(k1, BPow2(29))  o == IF oct = <<>> THEN 0 ELSE oct[1]
      pos(x) == Leq(NegF(tol), MulF(x, AbsF(x)))  neg(x) == Leq(MulF(x, AbsF(x)), tol)
      small(x, y) == Leq(Sq(x), AddF(Sq(y), tol))
  IN /\ Leq(AbsF(SubF(AddF(Sq(co), Sq(si)), want)), tol)
     /\ IF o \in {0, 1, 6, 7} THEN pos(co) ELSE neg(co)
     /\ IF o \in {0, 1, 2, 3} THEN pos(si) ELSE neg(si)
     /\ IF o \in {0, 3, 4, 7} THEN small(si, co) ELSE small(co, si)
\* the first of a standard pair alone
NormFirst(co, k1, k2) ==
  LET rho2 == Num(1, NegLn(BSub(D32, k2), 32), 1 - W96)
      tol == LET z == AddF(rho2, One) IN [z EXCEPT !.e = z.e - 44]
      oct == BQuo(k1, BPow2(29))  o == IF oct = <<>> THEN 0 ELSE oct[1]
      c2 == Sq(co)  half == IF rho2.m = <<>> THEN rho2 ELSE [rho2 EXCEPT !.e = rho2.e - 1]
  IN /\ Leq(c2, AddF(rho2, tol))
     /\ IF o \in {0, 1, 6, 7} THEN Leq(NegF(tol), MulF(co, AbsF(co))) ELSE Leq(MulF(co, AbsF(co)), tol)
     /\ IF o \in {0, 3, 4, 7} THEN Leq(half, AddF(c2, tol)) ELSE Leq(c2, AddF(half, tol))
Valid(fn, a) == CASE fn = "ui" -> a[1] <= a[2] [] fn = "norm" -> a[2] >= 0 [] fn = "bin" -> a[1] >= 0 /\ a[2] >= 0 /\ a[2] <= 16
                  [] fn = "bern" -> a[1] >= 0 /\ a[1] <= 16 [] fn = "geo" -> a[1] > 0 /\ a[1] < 16 [] fn = "poi" -> a[1] > 0
Accept(e) ==
    CASE e.o = "ui" -> LET d == Uni(RangeOf(e), e.br, e.ks, 1) IN e.same /\ e.mm /\ d.ok /\ d.i = Len(e.ks) + 1 /\ e.r = ZOff(e.a, d.v)
      [] e.o = "sm" -> e.same /\ e.mm /\ Len(e.ks) = 1 /\ e.r = ZOff(e.a, Small(RangeOf(e), e.br, e.ks[1]))
      [] e.o = "smf" -> e.same /\ e.n = 1 /\ e.r = ZOff(e.a, LET w == BMul(e.k, Inc(RangeOf(e))) IN BHigh(w, 53))
      [] e.o = "u01" -> LET d == Den(e.br, e.whole)  pr == Prec(e.t) - 3 IN
                        /\ e.same /\ IsQuo(e.r, LastK(e), d, pr) /\ CmpF(e.r, One) < 0
                        /\ Rejected(e, LAMBDA k : NearOne(k, d, pr))
      [] e.o = "real" -> LET d == Den(e.br, e.whole)  pr == Prec(e.t) - 3 IN
                         /\ e.same /\ IsReal(e.r, e.lo, e.hi, LastK(e), d, pr) /\ CmpF(e.r, e.hi) < 0 /\ ~(CmpF(e.r, e.lo) < 0)
                         /\ Rejected(e, LAMBDA k : IsReal(e.hi, e.lo, e.hi, k, d, pr))
      [] e.o = "bern" -> LET w == MulF(e.p, FOf(e.br))  x == FOf(e.k) IN
                         /\ e.same
                         /\ IF e.p.m = <<>> THEN e.n = 0 /\ e.r = 0
                            ELSE e.n = 1 /\ (Near(x, w, Prec(e.t) - 3, FOf(e.br)) \/ e.r = B01(CmpF(x, w) <= 0))
      [] e.o = "canon" -> LET n == 1 + CanonN(e.rad, e.bits, e.rad) IN
                          /\ e.same /\ Len(e.ks) = n /\ IsQuo(e.r, DigitSum(e.ks, e.rad, 1), FOf(BPow(e.rad, n)), Prec(e.t) - 4) /\ CmpF(e.r, One) < 0 /\ ~(e.r.s < 0 /\ e.r.m # <<>>)
      [] e.o = "geo" -> e.same /\ e.n = 1 /\ IsGeo(e.r, e.p, e.k, D32)
      [] e.o = "bin" -> e.same /\ e.n = 1 /\ IsBin(e.r, e.t, e.p, e.k, D32)
      [] e.o = "poi" -> e.same /\ e.n = 1 /\ IsPoi(e.r, [a |-> e.a, sh |-> e.sh], e.k, D32)
      [] e.o = "rej" -> e.same /\ e.r >= 0 /\ e.r <= e.hi /\ e.n >= 1
      [] e.o = "norm" -> /\ e.same /\ e.n = <<2, 2, 4, 6>> /\ e.nf = e.n
                         /\ NormPair(e.mu, e.sg, e.z[1], e.z[2], e.ks[1], e.ks[2]) /\ NormPair(e.mu, e.sg, e.y[1], e.y[2], e.ks[1], e.ks[2])
                         /\ NormPair(Zero(1), One, e.x[1], e.x[2], e.ks[1], e.ks[2])
                         /\ NormFirst(e.x[3], e.ks[3], e.ks[4]) /\ NormFirst(e.x[4], e.ks[5], e.ks[6])
                         /\ \A i \in 1..4 : LET w == AddF(e.mu, MulF(e.sg, e.x[i]))  big == AddF(AbsF(e.mu), AddF(AbsF(w), One)) IN Near(e.z[i], w, 46, big) /\ Near(e.y[i], w, 46, big)
      [] e.o = "rd" -> /\ e.good = Valid(e.fn, e.a) /\ e.now = (IF e.good THEN e.a ELSE e.was) /\ e.txt /\ e.same
      [] e.o = "seq" -> (\A i \in 1..Len(e.same) : e.same[i] = 1) /\ e.rng
      [] OTHER -> FALSE
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
