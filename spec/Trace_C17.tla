------------------------------ MODULE Trace_C17 ------------------------------
EXTENDS TraceBase, Tuples
Accept(e) == CASE e.o = "cat" -> e.r = FlattenSeq(e.p)
               [] e.o = "rel" -> e.r = RelTuple(e.a, e.b) /\ (e.a = e.b => e.h)
               [] OTHER -> e.r = TupleOp(e.o, e.a, e.b, e.k) /\ e.f = e.a     \* and the operand is left as it was
TraceNext == PickHistory \/ Consume(Accept)
===============================================================================
