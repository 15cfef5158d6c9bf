------------------------------ MODULE Trace_C06 ------------------------------
EXTENDS TraceBase, Permutation, Windows
Shuffled(e) == Fixed(e) /\ Rearranged(Before(e), After(e))
Moved(e) == Shuffled(e) /\ ("g" \in DOMAIN e => e.g = (Len(Before(e)) > 1))
Accept(e) ==
    CASE e.o = "next_permutation" -> Fixed(e) /\ NextStep(e.c, Before(e), After(e), e.x)
      [] e.o = "prev_permutation" -> Fixed(e) /\ PrevStep(e.c, Before(e), After(e), e.x)
         (* next then prev (or the reverse) gives the keys back, whatever the position in the cycle *)
      [] e.o = "roundtrip" -> \A i \in 1..Len(e.a) : Equiv(e.c, e.a[i], e.r[i])
         (* g: the generator handed back differs from the one given *)
      [] e.o = "shuffle" -> Moved(e)
      [] e.o = "random_swap" -> Moved(e) /\ OneSwap(Before(e), After(e))
      [] e.o = "sorted_by_chance" -> Fixed(e) /\ SortResult(e.c, Before(e), After(e)) /\ ("g" \in DOMAIN e => e.g = ~IsSorted(e.c, Before(e)))
      [] e.o = "same" -> e.x = e.y
      [] e.o = "sample_ordered" -> Len(e.r) = Min2(e.n, Len(e.a)) /\ IsSubsequence(e.r, e.a)
      [] e.o = "sample" -> Len(e.r) = Min2(e.n, Len(e.a)) /\ IsSubBag(e.r, e.a)
         (* over many seeds: every outcome occurs *)
      [] e.o = "reach_shuffle" -> {e.r[i] : i \in 1..Len(e.r)} = Arrangements(e.a)
      [] e.o = "reach_swap" -> {e.r[i] : i \in 1..Len(e.r)} = {b \in Arrangements(e.a) : OneSwap(e.a, b)}
      [] e.o = "reach_sample" -> {{e.r[i][j] : j \in 1..Len(e.r[i])} : i \in 1..Len(e.r)} = {S \in SUBSET {e.a[i] : i \in 1..Len(e.a)} : Cardinality(S) = e.n}
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
