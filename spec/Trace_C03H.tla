------------------------------ MODULE Trace_C03H ------------------------------
(* A priority queue living in one buffer: s.w the buffer, s.h the heap size.  *)
EXTENDS TraceHist, Sorting
Init == HistInit([w |-> << >>, h |-> 0])
Heap(e) == SubSeq(e.w, 1, e.h)
Moved(st, e, n) == Rearranged(SubSeq(st.w, 1, n), SubSeq(e.w, 1, n)) /\ Len(st.w) = Len(e.w)
                   /\ \A i \in n + 1..Len(e.w) : e.w[i] = st.w[i]
Ok(st, e) ==
    CASE e.o = "start" -> TRUE
      [] e.o = "make" -> e.h = st.h /\ Moved(st, e, st.h) /\ IsHeap(e.c, Heap(e))
      [] e.o = "push" -> e.h = st.h + 1 /\ Moved(st, e, e.h) /\ IsHeap(e.c, Heap(e))
      [] e.o = "pop" -> e.h = st.h - 1 /\ Moved(st, e, st.h) /\ IsHeap(e.c, Heap(e))
                        /\ Equiv(e.c, e.w[st.h], st.w[1]) /\ \A i \in 1..st.h : ~Less(e.c, e.w[st.h], st.w[i])
      [] e.o = "sort" -> e.h = st.h /\ Moved(st, e, st.h) /\ Sorted(e.c, Heap(e))
      [] e.o = "partial" -> e.h = e.m /\ Moved(st, e, Len(e.w)) /\ IsHeap(e.c, Heap(e))
                            /\ \A i \in 1..e.m : \A j \in e.m + 1..Len(e.w) : ~Less(e.c, e.w[j], e.w[i])
Nxt(st, e) == [w |-> e.w, h |-> e.h]
TraceInit == Init
TraceNext == PickHistory \/ Consume(Ok, Nxt)
==============================================================================
