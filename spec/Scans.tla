-------------------------------- MODULE Scans --------------------------------
(* Sequential definitions of folds and scans.                                 *)
EXTENDS SeqBase
(* named operations; "aff" composes affine maps x |-> (q*x + r) mod 7 coded   *)
(* as 7*q + r: associative but not commutative                                *)
Op(b, x, y) == CASE b = "plus" -> x + y [] b = "sub" -> x - y [] b = "mul" -> x * y [] b = "sec" -> y
                 [] b = "mix" -> (10 * x + y) % 1009
                 [] b = "aff" -> (((x \div 7) * (y \div 7)) % 7) * 7 + (((y \div 7) * (x % 7) + (y % 7)) % 7)
Un1(u, x) == CASE u = "id" -> x [] u = "x3" -> 3 * x + 1
Map1(u, a) == [i \in 1..Len(a) |-> Un1(u, a[i])]
Zip2(b, a, d) == [i \in 1..Len(a) |-> Op(b, a[i], d[i])]

RECURSIVE FoldL(_, _, _)
FoldL(b, v, a) == IF a = <<>> THEN v ELSE FoldL(b, Op(b, v, a[1]), Tail(a))
(* all running values, the initial one first *)
RECURSIVE Running(_, _, _)
Running(b, v, a) == IF a = <<>> THEN <<v>> ELSE <<v>> \o Running(b, Op(b, v, a[1]), Tail(a))
Inclusive(b, a) == IF a = <<>> THEN <<>> ELSE Running(b, a[1], Tail(a))
InclusiveInit(b, v, a) == Running(b, v, a)       \* the library delivers the initial value too
Exclusive(b, v, a) == SubSeq(Running(b, v, a), 1, Len(a))
Adjacent(b, a) == [i \in 1..Len(a) |-> IF i = 1 THEN a[1] ELSE Op(b, a[i], a[i - 1])]
IotaSeq(v, n) == [i \in 1..n |-> v + i - 1]
=============================================================================
