----------------------------- MODULE MC_SeqSearch -----------------------------
(* Two sequences grow symbol by symbol; the searching operators must obey     *)
(* their laws in every state.                                                 *)
EXTENDS SeqSearch, TLC
CONSTANTS K, NA, NB
VARIABLES a, b
vars == <<a, b>>
Sym == 0..K - 1
Init == a = << >> /\ b = << >>
GrowA == Len(a) < NA /\ \E x \in Sym : a' = Append(a, x) /\ b' = b
GrowB == Len(b) < NB /\ \E x \in Sym : b' = Append(b, x) /\ a' = a
Next == GrowA \/ GrowB
Rev == [i \in 1..Len(a) |-> a[Len(a) + 1 - i]]
RevB == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
(* find_end is search on the reversed sequences *)
EndLaw == b # << >> => LET k == Search(Rev, RevB, "eq") IN
             FindEnd(a, b, "eq") = IF k = Len(a) THEN Len(a) ELSE Len(a) - k - Len(b)
SearchLaw == LET k == Search(a, b, "eq") IN
    IF k = Len(a) THEN ~\E i \in 0..Len(a) - Len(b) : i < Len(a) /\ SubSeq(a, i + 1, i + Len(b)) = b
    ELSE SubSeq(a, k + 1, k + Len(b)) = b /\ \A i \in 0..k - 1 : SubSeq(a, i + 1, i + Len(b)) # b
SearchNLaw == \A n \in 0..3, v \in Sym : SearchN(a, n, v, "eq") = Search(a, Fill(n, v), "eq")
LexLaw == /\ Tristate(a, b, "lt") = 0 - Tristate(b, a, "lt")
          /\ (Tristate(a, b, "lt") = 0) = (a = b)
          /\ (Equal(a, b, "eq") = (a = b))
          /\ (Tristate(a, b, "lt") = -1) => Common(a, b, "eq") < Len(b)
PermLaw == /\ IsPermutation(a, b, "eq") = SameBag(a, b)
           /\ IsPermutation(a, b, "eq") = (StableSort("lt", a) = StableSort("lt", b))
           /\ IsPermutation(a, b, "eq") = IsPermutation(b, a, "eq")
MinMaxLaw == a # << >> => /\ a[MinElement(a, "lt") + 1] = StableSort("lt", a)[1]
                          /\ a[LastMaxElement(a, "lt") + 1] = StableSort("lt", a)[Len(a)]
                          /\ MinElement(a, "gt") = MaxElement(a, "lt")
SortLaw == LET s == StableSort("lt", a) IN Sorted("lt", s) /\ SameBag(s, a)
Inv == EndLaw /\ SearchLaw /\ SearchNLaw /\ LexLaw /\ PermLaw /\ MinMaxLaw /\ SortLaw
===============================================================================
