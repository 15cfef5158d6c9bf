------------------------------ MODULE Trace_C02 ------------------------------
EXTENDS TraceBase, Sorting, Windows
(* m: middle / nth, relative to the window *)
Accept(e) ==
    CASE e.o = "sort" -> Fixed(e) /\ SortResult(e.c, Before(e), After(e))
      [] e.o = "stable_sort" -> Fixed(e) /\ StableResult(e.c, Before(e), After(e))
         (* elements key*10000+position: stability is the order of the values themselves *)
      [] e.o = "stable_sort_big" -> Fixed(e) /\ Rearranged(Before(e), After(e)) /\ Sorted("lt", After(e))
      [] e.o = "partial_sort" -> Fixed(e) /\ PartialResult(e.c, Before(e), After(e), e.m)
      [] e.o = "fit_partial_sort" -> Fit(e, e.m) /\ PartialResult(e.c, Before(e), After(e), e.m)
      [] e.o = "nth_element" -> Fixed(e) /\ NthResult(e.c, Before(e), After(e), e.m)
      [] e.o = "fit_nth_element" -> Fit(e, e.m + 1) /\ NthResult(e.c, Before(e), After(e), e.m)
      [] e.o = "partial_sort_copy" -> LET n == Min2(Len(e.a), e.h - e.l)
                                          s == StableSort(e.c, e.a)
                                          d == Win(e.r, e.l, e.l + n)
                                      IN /\ Outside(e.w, e.r, e.l, e.l + n) /\ e.x = n
                                         /\ IsSubBag(d, e.a)
                                         /\ \A i \in 1..n : Equiv(e.c, d[i], s[i])
      [] e.o = "is_sorted" -> e.r = IsSorted(e.c, e.a)
      [] e.o = "is_sorted_until" -> e.r = SortedUntil(e.c, e.a)
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
