--------------------------- MODULE MC_TypeLists ---------------------------
(* The laws a list user relies on, over all small lists and all small ranges. *)
EXTENDS TypeLists
CONSTANTS MaxLen, V, B
VARIABLES s, t, x, first, last, step
Lists == UNION {[1..n -> 0..V] : n \in 0..MaxLen}
Init == /\ s \in Lists /\ t \in UNION {[1..n -> 0..V] : n \in 0..2} /\ x \in 0..V
        /\ first \in {0} /\ last \in {0} /\ step = 1
Next == /\ s = <<>> /\ t = <<>> /\ x = 0 /\ step = 1 /\ first = 0 /\ last = 0
        /\ first' \in -B..B /\ last' \in -B..B /\ step' \in (-B..B) \ {0}
        /\ UNCHANGED <<s, t, x>>
P == [e \in 0..V |-> e = x]
Q == [e \in 0..V |-> Even(e)]
Sorted == \A k \in 1..Len(s) - 1 : s[k] <= s[k + 1]
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
RangeLaw == LET r == Range_(first, last, step) IN
    /\ \A k \in 1..Len(r) : r[k] = first + (k - 1) * step /\ (IF step > 0 THEN r[k] < last ELSE r[k] > last)
    /\ (step > 0 /\ first < last) => Len(r) = (last - first + step - 1) \div step
    /\ (step < 0 /\ first > last) => Len(r) = (first - last - step - 1) \div (-step)
    /\ (first = last) => r = <<>>
    /\ (step > 0 /\ first <= last) => LET m == Range_(-first, -last, -step) IN Len(m) = Len(r) /\ \A k \in 1..Len(r) : m[k] = -r[k]
Law ==
    /\ RangeLaw
    /\ Range_(0, Len(s), 1) = Iota(Len(s))
    /\ PushFront(s, t) = PushBack(t, s) /\ Concat(<<s, t, s>>) = s \o t \o s
    /\ (s # <<>> => PushFront(PopFront(s), <<At(s, 0)>>) = s /\ PushBack(PopBack(s), <<At(s, Len(s) - 1)>>) = s)
    /\ Rev(PushBack(s, t)) = PushFront(Rev(s), Rev(t))
    /\ (AnyOf(s, P) <=> IndexOf(s, P) < Len(s)) /\ (NoneOf(s, P) <=> ~AnyOf(s, P))
    /\ (OneOf(s, P) <=> (CountOf(s, P) = 1)) /\ (AllOf(s, Q) <=> NoneOf(s, [e \in 0..V |-> ~Even(e)]))
    /\ (IndexOf(s, P) < Len(s) => At(s, IndexOf(s, P)) = x)
    /\ CountOf(s \o t, P) = CountOf(s, P) + CountOf(t, P)
    /\ Fold("plus", 0, s \o t) = Fold("plus", 0, s) + Fold("plus", 0, t)
    /\ Fold("minus", x, s) = x - Fold("plus", 0, s)
    /\ (s # <<>> => PartialSum("plus", s)[Len(s)] = Fold("plus", 0, s))
    /\ (Sorted => Lower(s, x, TRUE) <= Upper(s, x, TRUE) /\ Upper(s, x, TRUE) - Lower(s, x, TRUE) = CountOf(s, P)
                  /\ Lower(Rev(s), x, FALSE) = Len(s) - Upper(s, x, TRUE))
============================================================================
