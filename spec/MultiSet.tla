------------------------------- MODULE MultiSet -------------------------------
(* C04: sequences sorted by a strict weak order as multisets of equivalence   *)
(* classes, given by ranks within the class, not by a two-cursor walk.        *)
EXTENDS SeqBase

EqCount(c, s, x) == Cardinality({i \in 1..Len(s) : Equiv(c, s[i], x)})
Rank(c, s, i) == Cardinality({j \in 1..i : Equiv(c, s[j], s[i])})
RECURSIVE PickPos(_, _, _)
PickPos(s, S, i) == IF i > Len(s) THEN << >> ELSE (IF i \in S THEN <<s[i]>> ELSE << >>) \o PickPos(s, S, i + 1)
(* the elements of a beyond / within the first |class| elements matched in b *)
Beyond(c, a, b) == PickPos(a, {i \in 1..Len(a) : Rank(c, a, i) > EqCount(c, b, a[i])}, 1)
Within(c, a, b) == PickPos(a, {i \in 1..Len(a) : Rank(c, a, i) <= EqCount(c, b, a[i])}, 1)

Merge(c, a, b) == StableSort(c, a \o b)
Union(c, a, b) == StableSort(c, a \o Beyond(c, b, a))
Intersection(c, a, b) == Within(c, a, b)
Difference(c, a, b) == Beyond(c, a, b)
SymDifference(c, a, b) == StableSort(c, Beyond(c, a, b) \o Beyond(c, b, a))
Includes(c, a, b) == \A i \in 1..Len(b) : EqCount(c, b, b[i]) <= EqCount(c, a, b[i])

(* the cursors (i, j) at which a two-cursor walk stops *)
FindIntersection(c, a, b) ==     \* least common class: first positions of it
    LET S == {p \in (1..Len(a)) \X (1..Len(b)) : Equiv(c, a[p[1]], b[p[2]])}
        P(i) == \E j \in 1..Len(b) : <<i, j>> \in S
        i == FirstIn(1, Len(a), Len(a) + 1, P)
        Q(j) == <<i, j>> \in S
    IN IF S = {} THEN <<Len(a), Len(b)>> ELSE <<i - 1, FirstIn(1, Len(b), Len(b) + 1, Q) - 1>>
FindDifference(c, a, b) ==       \* first element of a not matched in b; b's cursor is past what precedes or matched
    LET P(i) == Rank(c, a, i) > EqCount(c, b, a[i])
        i == FirstIn(1, Len(a), Len(a) + 1, P)
        Q(j) == Less(c, a[i], b[j])
    IN IF i > Len(a) THEN <<Len(a), Len(b)>> ELSE <<i - 1, FirstIn(1, Len(b), Len(b) + 1, Q) - 1>>
FindSymDifference(c, a, b) ==    \* common prefix of equivalent elements
    LET P(i) == i > Len(a) \/ i > Len(b) \/ ~Equiv(c, a[i], b[i])
        k == FirstIn(1, Min2(Len(a), Len(b)) + 1, 0, P) - 1
    IN <<k, k>>
===============================================================================
