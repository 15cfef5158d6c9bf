------------------------------ MODULE Trace_C22H ------------------------------
EXTENDS TraceHist, Rationals
Nxt(st, e) == IF e.o = "step" THEN Apply(st, e.f, e.i, e.j, e.d, e.n, e.m) ELSE st
Step(st, e) == e.after = Nxt(st, e) /\ e.t = Refused(st, e.f, e.i, e.j, e.d, e.n, e.m) /\ (e.f \in {"x++", "x--"} => e.cp = st[e.d])
Look(st, e) == LET x == st[e.a]  y == st[e.b] IN
    /\ e.rel = Rel(x, y) /\ e.reln = Rel(x, RI(e.n)) /\ e.nrel = Rel(RI(e.n), x)
    /\ e.not = (x[1] = 0) /\ e.b_ = (x[1] # 0) /\ e.pos = x /\ e.get = x /\ e.it = <<x[1], x[2], 2>>
    /\ e.cast = QuoT(x[1], x[2]) /\ e.dbl = x[1]
    /\ (x = y => e.h /\ e.sh)
Ok(st, e) == CASE e.o = "step" -> Step(st, e) [] e.o = "look" -> Look(st, e)
    [] e.o = "text" -> e.tx = Text(st[e.a]) /\ e.ok /\ e.r = st[e.a] [] OTHER -> FALSE
TraceInit == HistInit([k \in 1..3 |-> <<0, 1>>])
TraceNext == PickHistory \/ Consume(Ok, Nxt)
=============================================================================
