------------------------------- MODULE BitFns -------------------------------
(* C12: the bit functions on a word of w bits given as the set x of its ones. *)
EXTENDS Bits
Clz(w, x) == w - 1 - MaxOf(x, -1)
Ctz(w, x) == MinOf(x, w)
Length(w, x) == MaxOf(x, -1) + 1
Parity(x) == Cardinality(x) % 2
(* leading bits equal to the sign bit, less the sign bit itself *)
Clrsb(w, x) == (IF w - 1 \in x THEN Clz(w, Compl(w, x)) ELSE Clz(w, x)) - 1
Reverse(w, x) == {w - 1 - i : i \in x}
ReverseIn(w, x, k) == {k - 1 - i : i \in {j \in x : j < k}}           \* of the k low bits
Least(S) == IF S = {} THEN {} ELSE {MinOf(S, 0)}
IsoLs1(x) == Least(x)
IsoLs0(w, x) == Least(Compl(w, x))
MaskT0(w, x) == {i \in Univ(w) : \A j \in x : i < j}                   \* the trailing zeros
MaskT1(w, x) == MaskT0(w, Compl(w, x))
MaskT0Ls1(w, x) == MaskT0(w, x) \cup IsoLs1(x)
MaskT1Ls0(w, x) == MaskT1(w, x) \cup IsoLs0(w, x)
Ge(w, b) == {i \in Univ(w) : i >= b}
Le(w, b) == {i \in Univ(w) : i <= b}
ShiftAR(w, x, k) == ShiftR(w, x, k) \cup (IF w - 1 \in x THEN {i \in Univ(w) : i >= w - k} ELSE {})
Rotr(w, x, k) == {(i - k) % w : i \in x}
SwapBytes(w, x) == {w - 8 * ((i \div 8) + 1) + (i % 8) : i \in x}
ByteLE(x, k) == {i - 8 * k : i \in {j \in x : j >= 8 * k /\ j < 8 * k + 8}}
(* two's complement negation; the least power of two not below a value *)
Neg(w, x) == LET m == MinOf(x, w) IN {i \in Univ(w) : i = m \/ (i > m /\ i \notin x)}
CarryU(w, x) == IF Cardinality(x) <= 1 THEN x ELSE {MaxOf(x, 0) + 1} \cap Univ(w)
CarryS(w, x) == IF w - 1 \in x THEN Neg(w, CarryU(w, Neg(w, x))) ELSE CarryU(w, x)
=============================================================================
