------------------------------- MODULE Sorting -------------------------------
(* C02, C03: rearrangements and the orders they must establish.              *)
EXTENDS SeqBase

SeqRange(a) == {a[i] : i \in 1..Len(a)}
Rearranged(a, b) == Len(a) = Len(b) /\ LET R == SeqRange(a) IN
    /\ R = SeqRange(b)
    /\ Cardinality(R) = Len(a) \/ \A x \in R : Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
IsSorted(c, a) == Sorted(c, a)
SortedUntil(c, a) == LET Q(i) == Less(c, a[i + 1], a[i]) IN FirstIn(1, Len(a) - 1, Len(a), Q)

SortResult(c, a, b) == Rearranged(a, b) /\ Sorted(c, b)
StableResult(c, a, b) == b = StableSort(c, a)
(* the m smallest, in order, at the front *)
PartialResult(c, a, b, m) == Rearranged(a, b) /\ Sorted(c, SubSeq(b, 1, m))
                             /\ \A i \in 1..m : \A j \in m + 1..Len(b) : ~Less(c, b[j], b[i])
(* b[n+1] is what a full sort would put there; nothing greater before, nothing smaller after *)
NthResult(c, a, b, n) == Rearranged(a, b) /\
    (n < Len(b) => /\ \A i \in 1..n : ~Less(c, b[n + 1], b[i])
                   /\ \A i \in n + 2..Len(b) : ~Less(c, b[i], b[n + 1]))
(* heaps: the parent of 0-based position i is (i-1) \div 2 *)
HeapUntil(c, a) == LET Q(i) == Less(c, a[((i - 2) \div 2) + 1], a[i]) IN FirstIn(2, Len(a), Len(a) + 1, Q) - 1
IsHeap(c, a) == HeapUntil(c, a) = Len(a)
=============================================================================
