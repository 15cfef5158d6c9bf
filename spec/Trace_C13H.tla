------------------------------ MODULE Trace_C13H ------------------------------
EXTENDS TraceHist, StringHist
Ok(st, e) == IF e.o = "over" THEN e.th /\ e.sz
             ELSE /\ LET t == NxtStr(st, e) IN e.x = t.x /\ e.y = t.y /\ Bounded(t)
                  /\ (e.o \notin {"init", "sety"} => e.th = Throws(st, e))
Nxt(st, e) == IF e.o = "over" THEN st ELSE NxtStr(st, e)
TraceInit == HistInit([n |-> 0, m |-> 0, x |-> << >>, y |-> << >>])
TraceNext == PickHistory \/ Consume(Ok, Nxt)
===============================================================================
