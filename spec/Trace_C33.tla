------------------------------ MODULE Trace_C33 ------------------------------
EXTENDS TraceBase, Kleene
Accept(e) ==
    CASE e.o = "bin" -> e.r = Bin(e.f, e.a, e.b)
      [] e.o = "un" -> e.not = Not(e.a) /\ e.c = Cond(e.a) /\ e.d = (e.a = "I") /\ e.m = (e.a = "I")
      [] e.o = "def" -> e.r = "F"
      [] e.o = "hash" -> e.r = (e.a = e.b) /\ e.q = (e.a = e.b) /\ e.k = (e.a = "I")
      [] e.o = "put" -> e.r = TextOf(e.t, e.alpha, e.third)
      [] e.o = "back" -> e.ok /\ e.r = e.t
      [] e.o = "get" -> LET r == Reads(e.text, 1, e.alpha, e.third, e.start, TRUE, 4) IN \A k \in 1..4 : e.r[k] = r[k].v /\ (e.ok[k] = 1) = r[k].ok
      [] OTHER -> FALSE
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
