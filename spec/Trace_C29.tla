------------------------------ MODULE Trace_C29 ------------------------------
EXTENDS TraceBase, Peg
(* each t: text, success, end, attribute.  A value whose magnitude needs     *)
(* more than 31 bits is not compared (such texts are not generated).         *)
PegOK(e) ==
    LET ty == Type(e.g) IN
    /\ e.ty = ty
    /\ \A k \in 1..Len(e.t) :
         LET x == e.t[k]
             m == Match(e.g, x[1], 0)
         IN IF m.ok THEN x[2] = 1 /\ x[3] = m.e /\ x[4] = m.a ELSE x[2] = 0 /\ x[3] = 0
Accept(e) == CASE e.o = "peg" -> PegOK(e) [] OTHER -> FALSE
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
