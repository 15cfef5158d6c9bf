------------------------------ MODULE Trace_C10H ------------------------------
(* Histories of two (windowed) containers x, y; each event shows both afterwards. *)
EXTENDS TraceHist, Containers
X(e) == [b |-> e.xb, l |-> e.xl, h |-> e.xh]
Y(e) == [b |-> e.yb, l |-> e.yl, h |-> e.yh]
Nxt(st, e) == CASE e.o = "init" -> [x |-> X(e), y |-> Y(e)]
                [] e.o = "swap" -> [x |-> st.y, y |-> st.x]
                [] e.o = "copy" -> [x |-> st.y, y |-> st.y]
                [] OTHER -> [x |-> WStep(e, st.x), y |-> st.y]
Ok(st, e) == /\ Enabled(e.o, st.x)
             /\ LET n == Nxt(st, e) IN n.x = X(e) /\ n.y = Y(e) /\ IsWindow(n.x) /\ IsWindow(n.y)
TraceInit == HistInit([x |-> [b |-> << >>, l |-> 0, h |-> 0], y |-> [b |-> << >>, l |-> 0, h |-> 0]])
TraceNext == PickHistory \/ Consume(Ok, Nxt)
===============================================================================
