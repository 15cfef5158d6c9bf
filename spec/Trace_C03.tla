------------------------------ MODULE Trace_C03 ------------------------------
EXTENDS TraceBase, Sorting, Windows
Front(a) == SubSeq(a, 1, Len(a) - 1)
MakeResult(k, a, b) == Rearranged(a, b) /\ IsHeap(k, b)
PushPre(k, a) == a = << >> \/ IsHeap(k, Front(a))
PopResult(k, a, b) == Rearranged(a, b) /\ (a # << >> => IsHeap(k, Front(b)) /\ \A i \in 1..Len(b) : ~Less(k, b[Len(b)], b[i]))
(* the m smallest at the front, forming a heap *)
MakePartial(k, a, b, m) == Rearranged(a, b) /\ IsHeap(k, SubSeq(b, 1, m))
                           /\ \A i \in 1..m : \A j \in m + 1..Len(b) : ~Less(k, b[j], b[i])
Accept(e) ==
    CASE e.o = "make_heap" -> Fixed(e) /\ MakeResult(e.c, Before(e), After(e))
      [] e.o = "push_heap" -> PushPre(e.c, Before(e)) /\ Fixed(e) /\ MakeResult(e.c, Before(e), After(e))
      [] e.o = "pop_heap" -> IsHeap(e.c, Before(e)) /\ Fixed(e) /\ PopResult(e.c, Before(e), After(e))
      [] e.o = "fit_pop_heap" -> IsHeap(e.c, Before(e)) /\ Fit(e, e.h - e.l - 1) /\ PopResult(e.c, Before(e), After(e))
      [] e.o = "sort_heap" -> IsHeap(e.c, Before(e)) /\ Fixed(e) /\ SortResult(e.c, Before(e), After(e))
      [] e.o = "make_partial_heap" -> Fixed(e) /\ MakePartial(e.c, Before(e), After(e), e.m)
      [] e.o = "fit_make_partial_heap" -> Fit(e, e.m) /\ MakePartial(e.c, Before(e), After(e), e.m)
      [] e.o = "is_heap" -> e.r = IsHeap(e.c, e.a)
      [] e.o = "is_heap_until" -> e.r = HeapUntil(e.c, e.a)
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
