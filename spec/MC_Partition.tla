------------------------------ MODULE MC_Partition ------------------------------
(* Halving searches and two-buffer partitioning as step machines; their halting   *)
(* states must be the declarative boundaries and rearrangements.                  *)
EXTENDS Sorting, TLC
CONSTANTS K, N
VARIABLES a, v, pc, lo, hi, t, f, p
vars == <<a, v, pc, lo, hi, t, f, p>>
Init == a = << >> /\ v \in 0..K /\ pc = "grow" /\ lo = 0 /\ hi = 0 /\ t = << >> /\ f = << >> /\ p = 0
Grow == pc = "grow" /\ Len(a) < N /\ \E x \in 0..K - 1 : (IF a = << >> THEN TRUE ELSE a[Len(a)] <= x) /\ a' = Append(a, x) /\ UNCHANGED <<v, pc, lo, hi, t, f, p>>
Go == pc = "grow" /\ pc' = "run" /\ hi' = Len(a) /\ UNCHANGED <<a, v, lo, t, f, p>>
Halve == pc = "run" /\ lo < hi /\ LET m == (lo + hi) \div 2 IN
            (IF a[m + 1] < v THEN lo' = m + 1 /\ hi' = hi ELSE hi' = m /\ lo' = lo) /\ UNCHANGED <<a, v, pc, t, f, p>>
Deal == pc = "run" /\ p < Len(a) /\ p' = p + 1 /\ (IF a[p + 1] % 2 = 1 THEN t' = Append(t, a[p + 1]) /\ f' = f ELSE f' = Append(f, a[p + 1]) /\ t' = t) /\ UNCHANGED <<a, v, pc, lo, hi>>
Next == Grow \/ Go \/ Halve \/ Deal
Inv == /\ pc = "run" => (\A i \in 1..lo : a[i] < v) /\ (\A i \in hi + 1..Len(a) : a[i] >= v)
       /\ (pc = "run" /\ lo = hi) => lo = Cardinality({i \in 1..Len(a) : a[i] < v})
       /\ (pc = "run" /\ p = Len(a)) => Rearranged(a, t \o f) /\ t = SelectSeq(a, LAMBDA x : x % 2 = 1)
================================================================================
