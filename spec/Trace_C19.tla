------------------------------ MODULE Trace_C19 ------------------------------
EXTENDS TraceBase, Ranges, Cursors
LowerOf(ch) == IF ch >= 65 /\ ch <= 90 THEN ch + 32 ELSE ch
UpperOf(ch) == IF ch >= 97 /\ ch <= 122 THEN ch - 32 ELSE ch
Accept(e) ==
    CASE e.o = "it" -> "w" \in DOMAIN e /\ Observed(Denote(e.k, e.a, e.b, e.x, e.y), e)
      [] e.o = "ix" -> e.ix = [i \in 1..(e.n + 1) |-> i - 1] \o <<e.n + 5, 5>> /\ e.rd = [i \in 1..e.n |-> e.n + 1 - i]
      [] e.o = "chars" -> e.lo = RApply(e.a, LowerOf) /\ e.up = RApply(e.a, UpperOf)
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
