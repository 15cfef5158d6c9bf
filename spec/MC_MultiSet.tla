------------------------------ MODULE MC_MultiSet ------------------------------
(* The two-cursor machine that consumes both sorted inputs step by step and    *)
(* appends to five outputs; when it halts its outputs are what the rank-based  *)
(* definitions say, for every pair of sorted inputs.                           *)
EXTENDS MultiSet, TLC
CONSTANTS K, N
VARIABLES a, b, ready, i, j, m, u, n, d, y
vars == <<a, b, ready, i, j, m, u, n, d, y>>
C == "key"
Init == a = << >> /\ b = << >> /\ ready = FALSE /\ i = 1 /\ j = 1 /\ m = << >> /\ u = << >> /\ n = << >> /\ d = << >> /\ y = << >>
out == <<i, j, m, u, n, d, y>>
GrowA == ~ready /\ Len(a) < N /\ b = << >> /\ \E k \in 0..K - 1 : (IF a = << >> THEN TRUE ELSE Key(a[Len(a)]) <= k) /\ a' = Append(a, k * 10 + Len(a)) /\ UNCHANGED <<b, ready, i, j, m, u, n, d, y>>
GrowB == ~ready /\ Len(b) < N /\ \E k \in 0..K - 1 : (IF b = << >> THEN TRUE ELSE Key(b[Len(b)]) <= k) /\ b' = Append(b, k * 10 + 5 + Len(b)) /\ UNCHANGED <<a, ready, i, j, m, u, n, d, y>>
Start == ~ready /\ ready' = TRUE /\ UNCHANGED <<a, b, i, j, m, u, n, d, y>>
TakeA == ready /\ i <= Len(a) /\ (IF j > Len(b) THEN TRUE ELSE Less(C, a[i], b[j])) /\ i' = i + 1 /\ u' = Append(u, a[i]) /\ d' = Append(d, a[i]) /\ y' = Append(y, a[i]) /\ UNCHANGED <<a, b, ready, j, m, n>>
TakeB == ready /\ j <= Len(b) /\ (IF i > Len(a) THEN TRUE ELSE Less(C, b[j], a[i])) /\ j' = j + 1 /\ u' = Append(u, b[j]) /\ y' = Append(y, b[j]) /\ UNCHANGED <<a, b, ready, i, m, n, d>>
Both == ready /\ i <= Len(a) /\ j <= Len(b) /\ Equiv(C, a[i], b[j]) /\ i' = i + 1 /\ j' = j + 1 /\ u' = Append(u, a[i]) /\ n' = Append(n, a[i]) /\ UNCHANGED <<a, b, ready, m, d, y>>
Next == GrowA \/ GrowB \/ Start \/ TakeA \/ TakeB \/ Both
Halt == ready /\ i > Len(a) /\ j > Len(b)
Inv == Halt => /\ u = Union(C, a, b) /\ n = Intersection(C, a, b) /\ d = Difference(C, a, b) /\ y = SymDifference(C, a, b)
               /\ Includes(C, a, b) = (SymDifference(C, a, b) = d)
               /\ Len(u) + Len(n) = Len(Merge(C, a, b)) /\ Len(d) + Len(n) = Len(a)
               /\ Merge(C, a, b) = MergeS(C, a, b)
               /\ (d = << >>) = (FindDifference(C, a, b)[1] = Len(a))
===============================================================================
