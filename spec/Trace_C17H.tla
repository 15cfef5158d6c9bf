------------------------------ MODULE Trace_C17H -----------------------------
EXTENDS TraceHist, Tuples
Ok(st, e) == LET n == NxtT(st, e) IN n = [x |-> <<e.x, e.y>>, u |-> e.u, p |-> <<e.p, e.q>>, q |-> e.s]
TraceInit == HistInit(FreshT)
TraceNext == PickHistory \/ Consume(Ok, NxtT)
===============================================================================
