------------------------------- MODULE Strings -------------------------------
(* C13/C14: bounded character strings.  Positions count from 0; -1 is npos as *)
(* a result, any large number is npos as an argument.                         *)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Chars(t) == {t[i] : i \in 1..Len(t)}
LeastOr(S) == IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : i <= j
GreatestOr(S) == IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : i >= j
Occ(x, t) == {i \in 0..Len(x) - Len(t) : SubSeq(x, i + 1, i + Len(t)) = t}
At(x, S(_)) == {i \in 0..Len(x) - 1 : S(x[i + 1])}

Find(x, t, q) == LeastOr({i \in Occ(x, t) : i >= q})
RFind(x, t, q) == GreatestOr({i \in Occ(x, t) : i <= q})
FirstOf(x, t, q) == LeastOr({i \in At(x, LAMBDA ch : ch \in Chars(t)) : i >= q})
LastOf(x, t, q) == GreatestOr({i \in At(x, LAMBDA ch : ch \in Chars(t)) : i <= q})
FirstNotOf(x, t, q) == LeastOr({i \in At(x, LAMBDA ch : ch \notin Chars(t)) : i >= q})
LastNotOf(x, t, q) == GreatestOr({i \in At(x, LAMBDA ch : ch \notin Chars(t)) : i <= q})
Finds(x, t, q) == <<Find(x, t, q), RFind(x, t, q), FirstOf(x, t, q), LastOf(x, t, q), FirstNotOf(x, t, q), LastNotOf(x, t, q)>>

(* lexicographic order on character codes: -1, 0, 1 *)
Cmp(x, y) == IF x = y THEN 0
             ELSE LET D == {i \in 1..Min2(Len(x), Len(y)) : x[i] # y[i]}
                  IN IF D = {} THEN (IF Len(x) < Len(y) THEN -1 ELSE 1)
                     ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN IF x[i] < y[i] THEN -1 ELSE 1
Rel(x, y) == LET r == Cmp(x, y) IN <<r = 0, r # 0, r < 0, r > 0, r <= 0, r >= 0>>
Sub(x, q, n) == SubSeq(x, q + 1, Min2(q + n, Len(x)))              \* for q <= Len(x)

RECURSIVE JoinStr(_, _)
JoinStr(v, sep) == IF v = << >> THEN << >> ELSE IF Len(v) = 1 THEN v[1] ELSE v[1] \o sep \o JoinStr(Tail(v), sep)
=============================================================================
