------------------------------- MODULE SeqBase -------------------------------
(* Values, predicates and orders shared by the algorithm specifications.     *)
(* An element is an integer; Key drops its last decimal digit, so elements   *)
(* key*10+tag with the same key are equivalent but distinguishable.          *)
EXTENDS Integers, Sequences, FiniteSets

Key(x) == x \div 10

UPred(u, x) == CASE u = "odd"   -> (Key(x) + x) % 2 # 0
                 [] u = "zero"  -> x = 0
                 [] u = "pos"   -> x > 0
                 [] u = "key1"  -> Key(x) % 2 = 1
                 [] u = "small" -> x < 15

BPred(p, x, y) == CASE p = "eq"   -> x = y
                    [] p = "asym" -> x = y \/ (x = 0 /\ y = 1)
                    [] p = "key"  -> Key(x) = Key(y)
                    [] p = "lt"   -> x < y

Less(c, x, y) == CASE c = "lt"  -> x < y
                   [] c = "gt"  -> x > y
                   [] c = "key" -> Key(x) < Key(y)
                   [] c = "kgt" -> Key(x) > Key(y)
Equiv(c, x, y) == ~Less(c, x, y) /\ ~Less(c, y, x)

Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

(* least / greatest i in lo..hi with P(i), or none *)
FirstIn(lo, hi, none, P(_)) == IF \E i \in lo..hi : P(i) THEN CHOOSE i \in lo..hi : P(i) /\ \A j \in lo..i - 1 : ~P(j) ELSE none
LastIn(lo, hi, none, P(_)) == IF \E i \in lo..hi : P(i) THEN CHOOSE i \in lo..hi : P(i) /\ \A j \in i + 1..hi : ~P(j) ELSE none

CountIn(a, P(_)) == Cardinality({i \in 1..Len(a) : P(a[i])})
Sub(a, lo, hi) == SubSeq(a, lo + 1, hi)          \* 0-based half-open [lo, hi)
Prefix(a, n) == SubSeq(a, 1, Min2(n, Len(a)))
Drop(a, n) == SubSeq(a, n + 1, Len(a))
Fill(n, x) == [i \in 1..n |-> x]
Reverse(a) == [i \in 1..Len(a) |-> a[Len(a) + 1 - i]]
Keep(a, P(_)) == SelectSeq(a, P)
IsSubBag(a, b) == \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : a[j] = a[i]}) <= Cardinality({j \in 1..Len(b) : b[j] = a[i]})
SameBag(a, b) == Len(a) = Len(b) /\ IsSubBag(a, b)

(* a stable merge sort: the reference order *)
RECURSIVE MergeS(_, _, _)
MergeS(c, a, b) == IF a = << >> THEN b ELSE IF b = << >> THEN a
                   ELSE IF Less(c, Head(b), Head(a)) THEN <<Head(b)>> \o MergeS(c, a, Tail(b))
                        ELSE <<Head(a)>> \o MergeS(c, Tail(a), b)
RECURSIVE StableSort(_, _)
StableSort(c, a) == IF Len(a) < 2 THEN a
                    ELSE LET h == Len(a) \div 2 IN MergeS(c, StableSort(c, SubSeq(a, 1, h)), StableSort(c, SubSeq(a, h + 1, Len(a))))
Sorted(c, a) == \A i \in 1..Len(a) - 1 : ~Less(c, a[i + 1], a[i])
=============================================================================
