---------------------------- MODULE MC_Valarrays -----------------------------
(* Laws of the valarray specification, and the closed form of a generalised   *)
(* slice that the implementation computes, over all small instances.          *)
EXTENDS Valarrays, FiniteSets, TLC
CONSTANTS MaxLen, MaxVal, MaxDim, MaxStride
VARIABLES a, w
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Dims == UNION {[1..k -> 0..MaxDim] : k \in 1..3}
Init == a \in Seqs(0..MaxVal, MaxLen) /\ w = << >>
(* pick a generalised slice of any shape, or a mask *)
Next == w = << >> /\ a' = a /\ \E d \in Dims : \E s \in [1..Len(d) -> 0..MaxStride] : w' = <<d, s>>
Spec == Init /\ [][Next]_<<a, w>>

RECURSIVE Prod(_)
Prod(d) == IF d = << >> THEN 1 ELSE d[1] * Prod(Tail(d))
(* the i-th position (from 0) by division with remainder, as in the code *)
RECURSIVE ClosedAt(_, _, _)
ClosedAt(i, d, st) == IF Len(d) = 1 THEN st[1] * i ELSE st[1] * (i \div Prod(Tail(d))) + ClosedAt(i % Prod(Tail(d)), Tail(d), Tail(st))
GsliceIsClosedForm ==
    w # << >> => LET g == GIdx(1, w[1], w[2]) IN
        /\ Len(g) = Prod(w[1])
        /\ \A i \in 1..Len(g) : g[i] = 1 + ClosedAt(i - 1, w[1], w[2])
Distinct(q) == Cardinality({q[i] : i \in 1..Len(q)}) = Len(q)
ScatterThenSelect ==
    w # << >> => LET g == GIdx(0, w[1], w[2]) b == [i \in 1..Len(g) |-> 50 + i] IN
        (Distinct(g) /\ \A i \in 1..Len(g) : g[i] < Len(a)) =>
            LET r == Scatter(a, g, "=", b) IN
            /\ Select(r, g) = b
            /\ \A k \in 1..Len(a) : (k - 1) \notin {g[i] : i \in 1..Len(g)} => r[k] = a[k]
            /\ Scatter(Scatter(a, g, "+", b), g, "-", b) = a
MaskLaw == LET g == MaskIdx(a) IN
    /\ Distinct(g) /\ {g[i] : i \in 1..Len(g)} = {k \in 0..(Len(a) - 1) : a[k + 1] # 0}
    /\ \A i \in 1..(Len(g) - 1) : g[i] < g[i + 1]
ShiftLaws == a # << >> => \A n \in (0 - MaxLen - 2)..(MaxLen + 2) :
    /\ CShift(CShift(a, n), -n) = a
    /\ \A m \in 0..2 : CShift(CShift(a, n), m) = CShift(a, n + m)
    /\ VSum(CShift(a, n)) = VSum(a)
    /\ (n >= Len(a) \/ n <= -Len(a)) => VSum(Shift(a, n)) = 0
    /\ n >= 0 => Shift(Shift(a, n), -n) = [i \in 1..Len(a) |-> IF i <= n THEN 0 ELSE a[i]]
DivLaw == \A x \in -7..7 : \A y \in (-3..3) \ {0} : TDiv(x, y) * y + TMod(x, y) = x /\ VAbs(TMod(x, y)) < VAbs(y) /\ (TMod(x, y) = 0 \/ (TMod(x, y) > 0) = (x > 0))
===============================================================================
