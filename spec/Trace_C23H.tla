------------------------------ MODULE Trace_C23H ------------------------------
EXTENDS TraceHist, Hypercomplex
Nxt(st, e) == StepTo(st, e.f, e.i, e.d, e.w)
Ok(st, e) == Nxt(st, e) = <<Pad(e.after[1]), Pad(e.after[2])>>
TraceInit == HistInit(<<Pad(<<>>), Pad(<<>>)>>)
TraceNext == PickHistory \/ Consume(Ok, Nxt)
=============================================================================
