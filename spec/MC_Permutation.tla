--------------------------- MODULE MC_Permutation ---------------------------
(* Walking successor steps from the sorted sequence visits every arrangement *)
(* once, in increasing order, and the step is the least greater arrangement. *)
EXTENDS Permutation, TLC
CONSTANTS K, N
VARIABLES a, seen, first
Seqs == UNION {[1..n -> 0..K - 1] : n \in 0..N}
Init == first \in {x \in Seqs : Sorted("lt", x)} /\ a = first /\ seen = {first}
Step == \E b \in Arrangements(a) : Successor("lt", a, b) /\ a' = b /\ seen' = seen \cup {b} /\ first' = first
Spec == Init /\ [][Step]_<<a, seen, first>>
Least == \A b \in Arrangements(a) : Successor("lt", a, b) <=>
            (LexLess("lt", a, b) /\ \A d \in Arrangements(a) : LexLess("lt", a, d) => ~LexLess("lt", d, b))
Inverse == \A b \in Arrangements(a) : Successor("lt", a, b) => Successor("gt", b, a)
Complete == Pivot("lt", a) = 0 => (seen = Arrangements(first) /\ Cardinality(seen) = Factorial(Len(first)) \div Runs(first))
Wrap == (Pivot("lt", a) = 0) = Desc("lt", a)
=============================================================================
