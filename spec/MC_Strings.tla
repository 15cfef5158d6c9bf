------------------------------ MODULE MC_Strings ------------------------------
(* The bounded string explored exhaustively: every sequence of edits over a    *)
(* two-letter alphabet keeps both strings within capacity; and the laws tying  *)
(* the searches, comparison and edits together hold in every reachable state.  *)
EXTENDS StringHist, TLC
CONSTANTS N, M
VARIABLE st
A == {1, 2}
Short == UNION {[1..k -> A] : k \in 0..2}
Init == st = [n |-> N, m |-> M, x |-> << >>, y |-> << >>]
Ev == {[o |-> k, t |-> t] : k \in {"assign", "append", "prepend"}, t \in Short}
      \cup {[o |-> k] : k \in {"clear", "assigny", "appendy", "prependy"}}
      \cup {[o |-> "resize", n |-> k, c |-> 1] : k \in 0..N + 1}
      \cup {[o |-> k, p |-> q, k |-> j] : k \in {"assignsub", "appendsub", "selfassign", "selfappend", "substr"}, q \in 0..2, j \in {0, 1, 1000}}
Ok2(e) == e.o \in {"selfassign", "selfappend"} => e.p <= Len(st.x)
Next == \/ \E e \in Ev : Ok2(e) /\ st' = NxtStr(st, e)
        \/ st.x # << >> /\ st' = NxtStr(st, [o |-> "pop"])
        \/ Len(st.y) <= N /\ Len(st.x) <= M /\ st' = NxtStr(st, [o |-> "swap"])
        \/ \E t \in Short : st' = NxtStr(st, [o |-> "sety", t |-> t])
Inv == LET x == st.x  y == st.y IN
    /\ Bounded(st)
    /\ \A q \in 0..Len(x) + 1 :
        /\ (Find(x, y, q) >= 0 => SubSeq(x, Find(x, y, q) + 1, Find(x, y, q) + Len(y)) = y /\ Find(x, y, q) >= q)
        /\ (Find(x, y, 0) = -1 <=> RFind(x, y, 1000) = -1)
        /\ (Len(y) = 1 => Find(x, y, q) = FirstOf(x, y, q) /\ RFind(x, y, q) = LastOf(x, y, q))
        /\ FirstOf(x, y, q) # FirstNotOf(x, y, q) \/ q >= Len(x)
        /\ (q <= Len(x) => Sub(x, 0, q) \o Sub(x, q, 1000) = x)
    /\ Cmp(x, y) = -Cmp(y, x)
    /\ Cmp(x, x \o y) = (IF y = << >> THEN 0 ELSE -1)
    /\ Cmp(<<1>> \o x, <<1>> \o y) = Cmp(x, y)
===============================================================================
