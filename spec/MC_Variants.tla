----------------------------- MODULE MC_Variants -----------------------------
EXTENDS Variants
CONSTANTS N, M          \* alternatives, values
VARIABLE st
One == (0..N - 1) \X (0..M - 1)
Init == st = <<<<0, 0>>, <<0, 0>>, <<0, 0>>>>
Next == \E op \in {"clear", "set", "copy", "swap", "poke"}, i, j \in 1..3, v \in One : st' = NxtVar(st, [o |-> op, i |-> i, j |-> j, v |-> v])
Inv == \A i, j, k \in 1..3 : LET a == st[i]  b == st[j]  d == st[k] IN
         /\ a \in One /\ ~(LtVar(a, b) /\ LtVar(b, a)) /\ (LtVar(a, b) \/ LtVar(b, a) \/ a = b)
         /\ (LtVar(a, b) /\ LtVar(b, d) => LtVar(a, d))
(* only poke keeps the alternative while changing the value; nothing changes two variants except swap *)
Frame == [][\A i \in 1..3 : st'[i] = st[i] \/ (\E k \in 1..3 : st'[i] = st[k]) \/ (\A k \in 1..3 \ {i} : st'[k] = st[k])]_st
=============================================================================
