------------------------------ MODULE Trace_C16 ------------------------------
EXTENDS TraceHist, Variants
Start == <<<<0, 0>>, <<0, 0>>, <<0, 0>>>>
Nxt(st, e) == IF e.o = "init" THEN Start ELSE NxtVar(st, e)
Ok(st, e) == IF e.o = "pair" THEN LET a == st[e.i]  b == st[e.j] IN e.r = RelVar(a, b) /\ (a = b => e.h /\ e.t)
             ELSE Nxt(st, e) = <<e.a, e.b, e.c>>
TraceInit == HistInit(Start)
TraceNext == PickHistory \/ Consume(Ok, Nxt)
===============================================================================
