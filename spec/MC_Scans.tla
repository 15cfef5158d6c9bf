------------------------------ MODULE MC_Scans ------------------------------
(* The definitions satisfy the laws users rely on, on all small sequences.    *)
EXTENDS Scans, TLC
VARIABLES sq, v, k
Ops == {"plus", "sub", "mix", "aff", "sec"}
Vals == {0, 9, 25, 48}
Init == sq \in UNION {[1..n -> Vals] : n \in 0..4} /\ v \in Vals /\ k \in 0..4
Next == UNCHANGED <<sq, v, k>>
Last1(s) == s[Len(s)]
FoldIsLastRunning == \A b \in Ops : FoldL(b, v, sq) = Last1(InclusiveInit(b, v, sq))
ScanLen == \A b \in Ops : Len(Inclusive(b, sq)) = Len(sq) /\ Len(Exclusive(b, v, sq)) = Len(sq) /\ Len(InclusiveInit(b, v, sq)) = Len(sq) + 1
(* splitting a fold anywhere *)
Split == \A b \in Ops : k <= Len(sq) => FoldL(b, v, sq) = FoldL(b, FoldL(b, v, Prefix(sq, k)), Drop(sq, k))
(* associative operations may be regrouped *)
Regroup == \A b \in {"plus", "aff", "sec"} : (k >= 1 /\ k < Len(sq)) => FoldL(b, v, sq) = Op(b, FoldL(b, v, Prefix(sq, k)), FoldL(b, sq[k + 1], Drop(sq, k + 1)))
(* adjacent differences undo partial sums *)
Inverse == Adjacent("sub", Inclusive("plus", sq)) = sq /\ Inclusive("plus", Adjacent("sub", sq)) = sq
Shift == \A b \in Ops : sq # <<>> => \A i \in 1..Len(sq) : Op(b, Exclusive(b, v, sq)[i], sq[i]) = InclusiveInit(b, v, sq)[i + 1]
NotCommutative == \E x \in Vals, y \in Vals : Op("aff", x, y) # Op("aff", y, x)
=============================================================================
