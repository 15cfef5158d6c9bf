------------------------------- MODULE MC_Edits -------------------------------
(* The edits as a machine on one sequence; every insertion is undone by the   *)
(* erasure at the same place, pushes by pops, and the pieces say which        *)
(* elements survive.                                                          *)
EXTENDS Edits, TLC
CONSTANTS K, N
VARIABLE s
Init == s = << >>
Ins(o, pos, x) == [o |-> o, pos |-> pos, x |-> x, n |-> 1]
Next == \/ \E pos \in 0..Len(s), v \in 0..K - 1 : Len(s) < N /\ s' = Edited(Ins("insert", pos, <<v>>), s)
        \/ \E pos \in 0..Len(s) - 1 : s' = Edited([o |-> "erase", pos |-> pos, k |-> 1], s)
Inv ==
    /\ \A pos \in 0..Len(s), v \in 0..K - 1, n \in 0..2 :
         LET e == [Ins("insert", pos, <<v, v + 1>>) EXCEPT !.n = n]  t == Edited(e, s) IN
         /\ Len(t) = Len(s) + 2 * n
         /\ Edited([o |-> "erase", pos |-> pos, k |-> 2 * n], t) = s
         /\ \A i \in 1..pos : t[i] = s[i]
         /\ \A i \in pos + 1..Len(s) : t[i + 2 * n] = s[i]
    /\ \A v \in 0..K - 1 :
         /\ Edited([o |-> "pop_back", k |-> 1], Edited(Ins("push_back", 0, <<v>>), s)) = s
         /\ Edited([o |-> "pop_front", k |-> 1], Edited(Ins("push_front", 0, <<v>>), s)) = s
         /\ Edited(Ins("push_back", 0, <<v>>), s) = Append(s, v)
    /\ \A n \in 0..N + 1 : /\ Reverse(PaddedFront(s, n, 9)) = Padded(Reverse(s), n, 9)
                           /\ (n >= Len(s) => SubSeq(Padded(s, n, 9), 1, Len(s)) = s)
                           /\ Padded(s, Len(s), 9) = s
==============================================================================
