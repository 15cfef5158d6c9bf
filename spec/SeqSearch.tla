------------------------------ MODULE SeqSearch ------------------------------
(* C01: what each non-modifying algorithm answers.  Positions are 0-based    *)
(* offsets from the beginning; "last" is Len(a).                             *)
EXTENDS SeqBase

AllOf(a, P(_)) == \A i \in 1..Len(a) : P(a[i])
AnyOf(a, P(_)) == \E i \in 1..Len(a) : P(a[i])
OneOf(a, P(_)) == CountIn(a, P) = 1
FindIf(a, P(_)) == LET Q(i) == P(a[i]) IN FirstIn(1, Len(a), Len(a) + 1, Q) - 1

(* does b occur in a at offset k, compared element-wise by p *)
OccursAt(a, b, k, p) == \A j \in 1..Len(b) : BPred(p, a[k + j], b[j])
Search(a, b, p) == LET Q(k) == OccursAt(a, b, k, p) IN FirstIn(0, Len(a) - Len(b), Len(a), Q)
FindEnd(a, b, p) == IF b = << >> THEN Len(a)
                    ELSE LET Q(k) == OccursAt(a, b, k, p) IN LastIn(0, Len(a) - Len(b), Len(a), Q)
SearchN(a, n, v, p) == LET Q(k) == \A j \in 1..n : BPred(p, a[k + j], v) IN FirstIn(0, Len(a) - n, Len(a), Q)
FindFirstOf(a, b, p) == LET Q(x) == \E j \in 1..Len(b) : BPred(p, x, b[j]) IN FindIf(a, Q)
AdjacentFind(a, p) == LET Q(i) == BPred(p, a[i], a[i + 1]) IN FirstIn(1, Len(a) - 1, Len(a) + 1, Q) - 1

(* length of the common prefix under p *)
Common(a, b, p) == LET n == Min2(Len(a), Len(b)) Q(i) == ~BPred(p, a[i], b[i]) IN FirstIn(1, n, n + 1, Q) - 1
Equal(a, b, p) == Len(a) = Len(b) /\ Common(a, b, p) = Len(a)
IsPermutation(a, b, p) == Len(a) = Len(b) /\
    \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : BPred(p, a[j], a[i])}) = Cardinality({j \in 1..Len(b) : BPred(p, b[j], a[i])})

(* -1, 0, 1 *)
Tristate(a, b, c) ==
    LET n == Min2(Len(a), Len(b))
        Q(i) == ~Equiv(c, a[i], b[i])
        k == FirstIn(1, n, 0, Q)
    IN IF k > 0 THEN (IF Less(c, a[k], b[k]) THEN -1 ELSE 1)
       ELSE IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0
(* each sequence ends before its first delimiter *)
CutAt(a, d, c) == LET Q(i) == Equiv(c, a[i], d) IN SubSeq(a, 1, FirstIn(1, Len(a), Len(a) + 1, Q) - 1)

(* first smallest, first largest; minmax_element: first smallest, last largest *)
MinElement(a, c) == IF a = << >> THEN 0
    ELSE LET Q(i) == \A j \in 1..Len(a) : ~Less(c, a[j], a[i]) IN FirstIn(1, Len(a), 0, Q) - 1
MaxElement(a, c) == IF a = << >> THEN 0
    ELSE LET Q(i) == \A j \in 1..Len(a) : ~Less(c, a[i], a[j]) IN FirstIn(1, Len(a), 0, Q) - 1
LastMaxElement(a, c) == IF a = << >> THEN 0
    ELSE LET Q(i) == \A j \in 1..Len(a) : ~Less(c, a[i], a[j]) IN LastIn(1, Len(a), 0, Q) - 1
Clamp(v, l, h, c) == IF Less(c, v, l) THEN l ELSE IF Less(c, h, v) THEN h ELSE v
Monotone(a, R(_, _)) == \A i \in 1..Len(a) - 1 : R(a[i], a[i + 1])

(* left fold of F over a from v, stopping before the first element seen with ~P(accumulator) *)
FoldWhile(a, v, F(_, _), P(_)) ==
    LET acc[i \in 0..Len(a)] == IF i = 0 THEN v ELSE LET prev == acc[i - 1] IN IF P(prev) THEN F(prev, a[i]) ELSE prev IN acc[Len(a)]
=============================================================================
