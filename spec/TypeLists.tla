---------------------------- MODULE TypeLists ----------------------------
(* Lists known at compile time: what each builder, operation and algorithm *)
(* on them means, as an operation on the sequence of their elements.       *)
EXTENDS Integers, Sequences, FiniteSets

\* The elements first, first + step, ... that lie strictly before last in the direction of the step.
RECURSIVE Range_(_, _, _)
Range_(first, last, step) ==
    IF (step > 0 /\ first >= last) \/ (step < 0 /\ first <= last) THEN <<>>
    ELSE <<first>> \o Range_(first + step, last, step)
DefaultStep(first, last) == IF first <= last THEN 1 ELSE -1
Copies(x, n) == [k \in 1..n |-> x]
Iota(n) == [k \in 1..n |-> k - 1]

PushBack(s, t) == s \o t
PushFront(s, t) == t \o s
PopFront(s) == SubSeq(s, 2, Len(s))
PopBack(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
At(s, i) == s[i + 1]

\* An element is coded as its value plus a hundred times the number of its type.
Val(e) == e % 100
Same(e, x) == e = x
Hits(s, P) == {k \in 1..Len(s) : P[s[k]]}
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
MaxOf(S) == CHOOSE m \in S : \A x \in S : m >= x
IndexOf(s, P) == LET h == Hits(s, P) IN IF h = {} THEN Len(s) ELSE MinOf(h) - 1
CountOf(s, P) == Cardinality(Hits(s, P))
AllOf(s, P) == CountOf(s, P) = Len(s)
AnyOf(s, P) == CountOf(s, P) > 0
NoneOf(s, P) == CountOf(s, P) = 0
OneOf(s, P) == CountOf(s, P) = 1

Even(e) == Val(e) % 2 = 0
Op(op, a, b) ==
    CASE op = "plus" -> a + b
      [] op = "minus" -> a - b
      [] op = "multiplies" -> a * b
      [] op = "sub2" -> 2 * a - b
      [] op = "rsub" -> b - 2 * a
RECURSIVE Fold(_, _, _)
Fold(op, x, s) == IF s = <<>> THEN x ELSE Fold(op, Op(op, x, Head(s)), Tail(s))
PartialSum(op, s) == [k \in 1..Len(s) |-> Fold(op, s[1], SubSeq(s, 2, k))]
Zip(op, s, t) == [k \in 1..Len(s) |-> Op(op, s[k], t[k])]
Before(less, a, b) == IF less THEN a < b ELSE a > b
Lower(s, x, less) == Cardinality({k \in 1..Len(s) : Before(less, s[k], x)})
Upper(s, x, less) == Cardinality({k \in 1..Len(s) : ~Before(less, x, s[k])})
MaxVal(s) == MaxOf({s[k] : k \in 1..Len(s)})
MinVal(s) == MinOf({s[k] : k \in 1..Len(s)})
===========================================================================
