-------------------------------- MODULE Ranges --------------------------------
(* What sequence an adapted range denotes.  a is the adapted sequence, b a    *)
(* second one, x and y parameters of the adaptor.                             *)
EXTENDS MultiSet
RApply(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]
Odd(v) == v % 2 = 1
SameParity(v, w) == (v - w) % 2 = 0
(* the first element and every element related to its predecessor by Rel *)
Adjacent(s, Rel(_, _)) == PickPos(s, {i \in 1..Len(s) : i = 1 \/ Rel(s[i - 1], s[i])}, 1)
PrefixLen(s, P(_)) == LET Bad(i) == i > Len(s) \/ ~P(s[i]) IN FirstIn(1, Len(s) + 1, 0, Bad) - 1
Interleave(s, t) == [i \in 1..(2 * Len(s)) |-> IF i % 2 = 1 THEN s[(i + 1) \div 2] ELSE t[i \div 2]]
EveryNth(s, w) == [i \in 1..((Len(s) + w - 1) \div w) |-> s[(i - 1) * w + 1]]
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Denote(k, a, b, x, y) ==
    LET ord == IF x = 1 THEN "gt" ELSE "lt"
        Id(v) == v                       Even(v) == ~Odd(v)
        Twice(v) == 2 * v + 1            Third(v) == v + v \div 3
        IsX(v) == v = x                  NotX(v) == v # x
        XtoY(v) == IF v = x THEN y ELSE v
        OddToY(v) == IF Odd(v) THEN y ELSE v
        Cl(v) == Clamp(v, x, y)
        Ne(v, w) == v # w                NotPar(v, w) == ~SameParity(v, w)
        Lt(v, w) == v < w
    IN CASE k = "same" -> a
         [] k = "transform" -> RApply(a, Twice)
         [] k = "filter" -> SelectSeq(a, Odd)
         [] k = "remove" -> SelectSeq(a, NotX)
         [] k = "remove_if" -> SelectSeq(a, Even)
         [] k = "replace" -> RApply(a, XtoY)
         [] k = "replace_if" -> RApply(a, OddToY)
         [] k = "unique" -> Adjacent(a, Ne)
         [] k = "unique_par" -> Adjacent(a, NotPar)
         [] k = "adjacent" -> Adjacent(a, Lt)
         [] k = "clamp" -> RApply(a, Cl)
         [] k = "while" -> SubSeq(a, 1, PrefixLen(a, Odd))
         [] k = "filter_tr" -> SelectSeq(RApply(a, Third), Odd)
         [] k = "reverse" -> Reverse(a)
         [] k = "revfilter" -> Reverse(SelectSeq(a, Odd))
         [] k = "revtrans" -> Reverse(RApply(a, Twice))
         [] k = "joint" -> a \o b
         [] k = "alternate" -> Interleave(a, b)
         [] k = "transform2" -> [i \in 1..Min2(Len(a), Len(b)) |-> a[i] - b[i]]
         [] k = "merge" -> Merge(ord, a, b)
         [] k = "set_union" -> Union(ord, a, b)
         [] k = "set_intersection" -> Intersection(ord, a, b)
         [] k = "set_difference" -> Difference(ord, a, b)
         [] k = "set_symmetric_difference" -> SymDifference(ord, a, b)
         [] k = "insert" -> SubSeq(a, 1, x) \o b \o SubSeq(a, x + 1, Len(a))
         [] k = "step" -> EveryNth(a, x)
         [] k = "count" -> [i \in 1..y |-> x + i - 1]
         [] k = "repeat" -> [i \in 1..y |-> x]
         [] k = "generate" -> [i \in 1..y |-> x + 3 * (i - 1)]
===============================================================================
