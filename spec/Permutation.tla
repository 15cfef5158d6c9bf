----------------------------- MODULE Permutation -----------------------------
(* Lexicographic enumeration of the arrangements of a sequence, and what a    *)
(* random rearrangement or selection may return.                              *)
EXTENDS Sorting

RECURSIVE LexLess(_, _, _)
LexLess(k, a, b) == IF b = << >> THEN FALSE ELSE IF a = << >> THEN TRUE
                    ELSE Less(k, Head(a), Head(b)) \/ (Equiv(k, Head(a), Head(b)) /\ LexLess(k, Tail(a), Tail(b)))
Desc(k, a) == \A i \in 1..Len(a) - 1 : ~Less(k, a[i], a[i + 1])
(* the last position with a greater element somewhere after it; 0 for the last arrangement *)
Pivot(k, a) == LastIn(1, Len(a), 0, LAMBDA i : \E j \in i + 1..Len(a) : Less(k, a[i], a[j]))
(* b is the arrangement right after a (up to exchanging equivalent elements) *)
Successor(k, a, b) == LET i == Pivot(k, a) IN
    /\ i > 0 /\ Rearranged(a, b)
    /\ \A j \in 1..i - 1 : a[j] = b[j]
    /\ Less(k, a[i], b[i]) /\ \A j \in i + 1..Len(a) : Less(k, a[i], a[j]) => ~Less(k, a[j], b[i])
    /\ Sorted(k, SubSeq(b, i + 1, Len(b)))
Flip(k) == CASE k = "lt" -> "gt" [] k = "gt" -> "lt" [] k = "key" -> "kgt" [] k = "kgt" -> "key"
NextStep(k, a, b, more) == IF Pivot(k, a) > 0 THEN more /\ Successor(k, a, b) ELSE ~more /\ Rearranged(a, b) /\ Sorted(k, b)
PrevStep(k, a, b, more) == NextStep(Flip(k), a, b, more)

Arrangements(a) == {[i \in 1..Len(a) |-> a[f[i]]] : f \in {g \in [1..Len(a) -> 1..Len(a)] : \A i, j \in 1..Len(a) : i # j => g[i] # g[j]}}
(* at most one exchange of two elements *)
OneSwap(a, b) == Len(a) = Len(b) /\ (a = b \/ \E i, j \in 1..Len(a) : i < j /\ b = [a EXCEPT ![i] = a[j], ![j] = a[i]])
RECURSIVE IsSubsequence(_, _)
IsSubsequence(b, a) == IF b = << >> THEN TRUE ELSE IF a = << >> THEN FALSE
                       ELSE IF Head(a) = Head(b) THEN IsSubsequence(Tail(b), Tail(a)) ELSE IsSubsequence(b, Tail(a))
RECURSIVE Factorial(_)
Factorial(n) == IF n = 0 THEN 1 ELSE n * Factorial(n - 1)
RECURSIVE Runs(_)      \* product of the factorials of the multiplicities of a sorted sequence
Runs(a) == IF a = << >> THEN 1 ELSE LET n == Cardinality({i \in 1..Len(a) : a[i] = a[1]}) IN Factorial(n) * Runs(SubSeq(a, n + 1, Len(a)))
=============================================================================
