------------------------------ MODULE Trace_C05 ------------------------------
EXTENDS TraceBase, Sorting, Windows
Partitioned(u, a) == \E k \in 0..Len(a) : (\A i \in 1..k : UPred(u, a[i])) /\ (\A i \in k + 1..Len(a) : ~UPred(u, a[i]))
TrueFirst(u, a) == LET P(x) == UPred(u, x) Q(x) == ~UPred(u, x) IN Keep(a, P) \o Keep(a, Q)
Trues(u, a) == LET P(x) == UPred(u, x) IN CountIn(a, P)
IsPartition(u, a, b) == Rearranged(a, b) /\ LET k == Trues(u, a) IN \A i \in 1..k : UPred(u, b[i])
(* boundary of the elements below / not above a key *)
Below(k, a, v) == Cardinality({i \in 1..Len(a) : Less(k, a[i], v)})
NotAbove(k, a, v) == Cardinality({i \in 1..Len(a) : ~Less(k, v, a[i])})
Cut(k, a, v) == (\A i, j \in 1..Len(a) : (i < j /\ Less(k, a[j], v)) => Less(k, a[i], v)) /\ (\A i, j \in 1..Len(a) : (i < j /\ ~Less(k, v, a[j])) => ~Less(k, v, a[i]))
(* partition_copy into a smaller destination takes the first inputs that fit *)
Head2(e) == Prefix(e.a, e.h - e.l)
Accept(e) ==
    CASE e.o = "lower_bound" -> Cut(e.c, e.a, e.v) /\ e.r = Below(e.c, e.a, e.v)
      [] e.o = "upper_bound" -> Cut(e.c, e.a, e.v) /\ e.r = NotAbove(e.c, e.a, e.v)
      [] e.o = "equal_range" -> Cut(e.c, e.a, e.v) /\ e.r = <<Below(e.c, e.a, e.v), NotAbove(e.c, e.a, e.v)>>
      [] e.o = "binary_search" -> e.r = (Below(e.c, e.a, e.v) # NotAbove(e.c, e.a, e.v))
      [] e.o = "partition_point" -> Partitioned(e.u, e.a) /\ e.r = Trues(e.u, e.a)
      [] e.o = "is_partitioned" -> e.r = Partitioned(e.u, e.a)
      [] e.o = "partition" -> Fixed(e) /\ IsPartition(e.u, Before(e), After(e)) /\ ("x" \in DOMAIN e => e.x = Trues(e.u, Before(e)))
      [] e.o = "fit_partition" -> Fit(e, Trues(e.u, Before(e))) /\ IsPartition(e.u, Before(e), After(e))
      [] e.o = "stable_partition" -> Fixed(e) /\ After(e) = TrueFirst(e.u, Before(e)) /\ ("x" \in DOMAIN e => e.x = Trues(e.u, Before(e)))
      [] e.o = "fit_stable_partition" -> Fit(e, Trues(e.u, Before(e))) /\ After(e) = TrueFirst(e.u, Before(e))
      [] e.o = "stable_partition_copy" -> Fixed(e) /\ e.r = Placed(e.w, e.l, e.h, TrueFirst(e.u, e.a))
      [] e.o = "fit_stable_partition_copy" -> Fit(e, Min2(Trues(e.u, e.a), e.h - e.l)) /\ e.r = Placed(e.w, e.l, e.h, TrueFirst(e.u, e.a))
      [] e.o = "partition_copy" -> LET n == Len(Head2(e)) IN Fixed(e) /\ Outside(e.w, e.r, e.l, e.l + n) /\ IsPartition(e.u, Head2(e), Win(e.r, e.l, e.l + n))
      [] e.o = "fit_partition_copy" -> LET n == Len(Head2(e)) IN Fit(e, Trues(e.u, Head2(e))) /\ Outside(e.w, e.r, e.l, e.l + n) /\ IsPartition(e.u, Head2(e), Win(e.r, e.l, e.l + n))
      [] e.o = "partition_copy2" -> LET P(x) == UPred(e.u, x) Q(x) == ~UPred(e.u, x) IN e.t = Keep(e.a, P) /\ e.f = Keep(e.a, Q)
      [] e.o = "gather" -> LET P(x) == UPred(e.u, x) Q(x) == ~UPred(e.u, x)
                               x == SubSeq(Before(e), 1, e.m)
                               y == Drop(Before(e), e.m)
                           IN Fixed(e) /\ After(e) = Keep(x, Q) \o Keep(x, P) \o Keep(y, P) \o Keep(y, Q)
                              /\ e.x = <<Len(Keep(x, Q)), e.m + Len(Keep(y, P))>>
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
