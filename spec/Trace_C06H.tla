------------------------------ MODULE Trace_C06H ------------------------------
(* Repeated steps on one buffer: s.a its contents, s.seen the arrangements met. *)
EXTENDS TraceHist, Permutation
Init == HistInit([a |-> << >>, n |-> 0, last |-> << >>])
Ok(st, e) ==
    CASE e.o = "start" -> TRUE
      [] e.o = "next" -> NextStep(e.c, st.a, e.r, e.x)
      [] e.o = "prev" -> PrevStep(e.c, st.a, e.r, e.x)
         (* a full cycle has as many steps as there are arrangements and ends where it began *)
      [] e.o = "cycle" -> st.n = Factorial(Len(e.a)) \div Runs(e.a) /\ st.a = e.a
Nxt(st, e) ==
    CASE e.o = "start" -> [a |-> e.r, n |-> 0, last |-> << >>]
      [] e.o \in {"next", "prev"} -> [a |-> e.r, n |-> st.n + 1, last |-> st.a]
      [] OTHER -> st
TraceInit == Init
TraceNext == PickHistory \/ Consume(Ok, Nxt)
=============================================================================
