------------------------------ MODULE Trace_C25S -----------------------------
(* Seed sequences: the words generated from entropy, and the entropy back.    *)
EXTENDS TraceBase, Engines
Accept(e) == /\ e.r = SeedSeq(e.v, e.n) /\ e.r2 = e.r /\ e.r3 = e.r
             /\ e.pv = e.v /\ e.pw = e.v /\ e.size = Len(e.v)
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
