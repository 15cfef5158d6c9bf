------------------------------ MODULE Trace_C09 ------------------------------
EXTENDS TraceBase, Edits
Accept(e) ==
    LET n == e.h - e.l
        s == Before(e)
        same == "w2" \notin DOMAIN e
    IN same /\
    CASE e.o = "set" -> e.r = [e.w EXCEPT ![e.l + e.pos + 1] = e.v] /\ e.rl = e.l /\ e.rh = e.h
      [] e.o = "resize" -> e.r = Padded(s, e.n, e.v) /\ e.rl = 0 /\ e.rh = e.n
      [] e.o = "resize_backward" -> e.r = PaddedFront(s, e.n, e.v) /\ e.rl = 0 /\ e.rh = e.n
      [] e.o = "realign" -> e.r = Padded(s, e.n, e.v) /\ e.rl = 0 /\ e.rh = IF e.f = "fit" THEN Min2(n, e.n) ELSE e.n
      [] OTHER ->
           LET t == Edited(e, s)
               q == e.l + EditPos(e, n)
               (* the whole buffer gets the same edit; an input shorter than its type leaves default elements behind *)
               b == InsertAt(EraseAt(e.w, q, Gone(e)), q, Coming(e))
               n2 == n + Len(Coming(e)) - Gone(e)
           IN /\ e.rl = e.l /\ e.rh = IF e.ar /\ e.f = "fixed" THEN Len(e.r) ELSE e.l + n2     \* an array shows all its elements
              /\ Win(e.r, e.rl, e.rl + n2) = t
              /\ e.r = Padded(b, Len(b) + e.pad, 0)
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
