------------------------------ MODULE Trace_C21 ------------------------------
EXTENDS TraceBase, Scans, Windows
Src(e) == IF "un" \in DOMAIN e THEN Map1(e.un, e.a) ELSE e.a
Result(e) ==
    CASE e.o = "inclusive" -> Inclusive(e.b, Src(e))
      [] e.o = "inclusive_init" -> InclusiveInit(e.b, e.v, Src(e))
      [] e.o = "exclusive" -> Exclusive(e.b, e.v, Src(e))
      [] e.o = "adjacent" -> Adjacent(e.b, e.a)
      [] e.o = "iota" -> IotaSeq(e.v, e.h - e.l)
Accept(e) ==
    CASE e.o = "fold" -> e.r = FoldL(e.b, e.v, Src(e))
      [] e.o = "fold2" -> e.r = FoldL(e.b, e.v, Zip2(e.b2, e.a, e.c))
      [] OTHER ->
           LET out == Result(e)
           IN CASE e.f = "fixed" -> Fixed(e) /\ e.r = Placed(e.w, e.l, e.h, out)
                [] e.f = "fit" -> Fit(e, Min2(Len(out), e.h - e.l)) /\ e.r = Placed(e.w, e.l, e.h, out)
                [] e.f = "in" -> e.r = Placed(e.w, e.l, e.h, out) /\ e.x = Len(out)
                [] e.f = "self" -> e.r = Placed(e.w, e.l, e.h, out)
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
