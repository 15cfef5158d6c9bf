------------------------------ MODULE Trace_C18H -----------------------------
EXTENDS TraceHist, Valarrays
Ok(st, e) == /\ NxtV(st, e) = [x |-> e.x, y |-> e.y]
             /\ (e.o = "toolong" => e.th = TRUE)
TraceInit == HistInit(VInit)
TraceNext == PickHistory \/ Consume(Ok, NxtV)
===============================================================================
