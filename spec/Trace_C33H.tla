------------------------------ MODULE Trace_C33H ------------------------------
EXTENDS TraceHist, Kleene
Nxt(st, e) == Assign(st, e.f, e.i, e.j, e.d, e.b)
Ok(st, e) == e.after = Nxt(st, e)
TraceInit == HistInit(<<"F", "T", "I">>)
TraceNext == PickHistory \/ Consume(Ok, Nxt)
=============================================================================
