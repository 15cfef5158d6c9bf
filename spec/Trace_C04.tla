------------------------------ MODULE Trace_C04 ------------------------------
EXTENDS TraceBase, MultiSet, Windows
Out(op, e) == CASE op = "merge" -> Merge(e.c, e.a, e.b)
                [] op = "set_union" -> Union(e.c, e.a, e.b)
                [] op = "set_intersection" -> Intersection(e.c, e.a, e.b)
                [] op = "set_difference" -> Difference(e.c, e.a, e.b)
                [] op = "set_symmetric_difference" -> SymDifference(e.c, e.a, e.b)
Accept(e) ==
    /\ ("a" \in DOMAIN e => Sorted(e.c, e.a)) /\ ("b" \in DOMAIN e => Sorted(e.c, e.b))
    /\ CASE e.o = "fixed" -> Fixed(e) /\ e.r = Placed(e.w, e.l, e.h, Out(e.op, e))
         [] e.o = "fit" -> LET o == Out(e.op, e) IN Fit(e, Min2(Len(o), e.h - e.l)) /\ e.r = Placed(e.w, e.l, e.h, o)
         [] e.o = "to" -> LET o == Out(e.op, e) IN e.x = Len(o) /\ e.r = Placed(e.w, e.l, Len(e.w), o)
         [] e.o = "iter" -> e.r = Out(e.op, e)
         [] e.o = "includes" -> e.r = Includes(e.c, e.a, e.b)
         [] e.o = "inplace_merge" -> Fixed(e) /\ LET x == Before(e) IN
                Sorted(e.c, SubSeq(x, 1, e.m)) /\ Sorted(e.c, Drop(x, e.m)) /\ After(e) = StableSort(e.c, x)
         [] e.o = "find_intersection" -> e.r = FindIntersection(e.c, e.a, e.b)
         [] e.o = "find_difference" -> e.r = FindDifference(e.c, e.a, e.b)
         [] e.o = "find_symmetric_difference" -> e.r = FindSymDifference(e.c, e.a, e.b)
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
