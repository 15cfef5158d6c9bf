------------------------------ MODULE MC_Sorting ------------------------------
(* A sorting machine: any adjacent inversion may be exchanged next.  Every    *)
(* run keeps the elements, and every run that cannot go on has produced the   *)
(* one stably sorted sequence the reference order gives; the weaker results   *)
(* (sort, partial_sort, nth_element, heaps) hold of it too.                   *)
EXTENDS Sorting, TLC
CONSTANTS K, N
VARIABLES a, b, building
vars == <<a, b, building>>
Init == a = << >> /\ b = << >> /\ building = TRUE
Grow == building /\ Len(a) < N /\ \E x \in 0..K - 1 : a' = Append(a, x * 10 + Len(a)) /\ b' = a' /\ building' = TRUE
Start == building /\ building' = FALSE /\ UNCHANGED <<a, b>>
Exch == ~building /\ \E i \in 1..Len(b) - 1 : Less("key", b[i + 1], b[i])
                  /\ b' = [b EXCEPT ![i] = b[i + 1], ![i + 1] = b[i]] /\ UNCHANGED <<a, building>>
Next == Grow \/ Start \/ Exch
Stuck == ~building /\ ~ENABLED Exch
(* the binary max-heap property stated by parent links equals the recursive definition *)
RECURSIVE HeapAt(_, _)
HeapAt(s, i) == LET l == 2 * i r == 2 * i + 1 IN
    /\ (l <= Len(s) => ~Less("key", s[i], s[l]) /\ HeapAt(s, l))
    /\ (r <= Len(s) => ~Less("key", s[i], s[r]) /\ HeapAt(s, r))
Inv == /\ Rearranged(a, b) /\ SameBag(a, b)
       /\ SortedUntil("key", b) = Len(b) <=> Sorted("key", b)
       /\ (b # << >> => (IsHeap("key", b) <=> HeapAt(b, 1)))
       /\ Stuck => /\ StableResult("key", a, b) /\ SortResult("key", a, b)
                   /\ \A m \in 0..Len(b) : PartialResult("key", a, b, m) /\ NthResult("key", a, b, m)
                   /\ IsHeap("kgt", b)
       (* the results determine the keys at the positions they promise *)
       /\ LET s == StableSort("key", a) IN \A m \in 0..Len(b) :
             /\ NthResult("key", a, b, m) => (m < Len(b) => Equiv("key", b[m + 1], s[m + 1]))
             /\ PartialResult("key", a, b, m) <=> \A i \in 1..m : Equiv("key", b[i], s[i])
==============================================================================
