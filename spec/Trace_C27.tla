------------------------------ MODULE Trace_C27 ------------------------------
EXTENDS TraceBase, Text
INFNAN(x) == CASE x.k = "i" -> (IF x.s < 0 THEN <<45, 105, 110, 102>> ELSE <<105, 110, 102>>)
MinusNan == <<45, 110, 97, 110>>
Accept(e) ==
    CASE e.o = "int" -> LET r == ParseInt(e.cs, e.base) IN \A k \in 1..Len(e.r) : e.r[k][3] = IntoInt(r.v, e.r[k][1], e.r[k][2]) /\ (e.r[k][4] >= 0 => e.r[k][4] = r.n)
      [] e.o = "itos" -> e.r = FormatInt(e.v, e.base)
      [] e.o = "dec" -> LET d == ParseDec(e.cs) IN ReadsAs(e.t, d, e.r) /\ (e.n >= 0 => e.n = d.n) /\ (e.bi /\ d.n > 0 => e.r.s = d.s)
      [] e.o = "fix" -> IF IsNaN(e.x) THEN e.r = Tail(MinusNan) \/ e.r = MinusNan ELSE IF IsInf(e.x) THEN e.r = INFNAN(e.x) ELSE FixedOK(e.t, e.x, e.r, e.bi)
      [] e.o = "exp" -> IF IsNaN(e.x) THEN e.r = Tail(MinusNan) \/ e.r = MinusNan ELSE IF IsInf(e.x) THEN e.r = INFNAN(e.x) ELSE ExpTextOK(e.t, e.x, e.r, e.bi)
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
