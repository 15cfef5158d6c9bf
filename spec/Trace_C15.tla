------------------------------ MODULE Trace_C15 ------------------------------
EXTENDS TraceHist, Optionals
Empty3 == <<<< >>, << >>, << >>>>
Fresh == [ref |-> FALSE, x |-> Empty3, u |-> << >>]
Nxt(st, e) == CASE e.o = "init" -> Fresh
                [] e.o = "initr" -> [ref |-> TRUE, x |-> Empty3, u |-> <<10, 20, 30>>]
                [] e.o = "init2" -> [Fresh EXCEPT !.x[1] = e.a]
                [] e.o = "emplace" -> Put(st, 1, <<e.v>>)
                [] OTHER -> NxtOpt(st, e)
Ok(st, e) == CASE e.o = "pair" -> LET a == Deref(st, st.x[e.i])  b == Deref(st, st.x[e.j]) IN e.r = RelOpt(a, b) /\ (a = b => e.h)
               [] e.o = "init2" -> e.a \in {<< >>, <<7>>}
               [] e.o = "emplace" -> e.a = <<e.v>>
               [] OTHER -> LET n == Nxt(st, e) IN AtMostOne(n) /\ n.x = <<e.a, e.b, e.c>> /\ n.u = e.u
TraceInit == HistInit(Fresh)
TraceNext == PickHistory \/ Consume(Ok, Nxt)
===============================================================================
