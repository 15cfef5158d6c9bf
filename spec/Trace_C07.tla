------------------------------ MODULE Trace_C07 ------------------------------
EXTENDS TraceBase, Transforms, Windows
(* f: "fixed" / "fit": a new container; "in": written through an output       *)
(* iterator from the front of the window, x = elements written; "self": the   *)
(* range itself changed in place, x = new length if one is returned           *)
Input(e) == IF "a" \in DOMAIN e THEN e.a ELSE Before(e)
Accept(e) ==
    CASE e.o = "copy_backward" ->
           LET n == Min2(Len(e.a), e.h - e.l)
               r == SubSeq(e.w, 1, e.h - n) \o Drop(e.a, Len(e.a) - n) \o Drop(e.w, e.h)
           IN e.r = r /\ "w2" \notin DOMAIN e
              /\ (CASE e.f = "fixed" -> e.rl = e.l /\ e.rh = e.h
                   [] e.f = "fit" -> e.rl = e.h - n /\ e.rh = e.h
                   [] e.f = "in" -> e.x = (e.h - e.l) - n)
      [] e.o = "swap_ranges" -> e.r = e.b \o Drop(e.a, Len(e.b)) /\ e.s = Prefix(e.a, Len(e.b)) /\ e.x = Len(e.b)
      [] e.o = "gen_mut" -> e.r = SubSeq(e.w, 1, e.l) \o Iota(e.v, e.h - e.l) \o Drop(e.w, e.h)
      [] OTHER ->
           LET out == Out(e, Input(e))
               n == Min2(Len(out), e.h - e.l)
           IN CASE e.f = "fixed" -> Fixed(e) /\ e.r = Placed(e.w, e.l, e.h, out)
                [] e.f = "fit" -> Fit(e, n) /\ e.r = Placed(e.w, e.l, e.h, out)
                [] e.f = "in" -> n = Len(out) /\ e.r = Placed(e.w, e.l, e.h, out) /\ e.x = n
                                 /\ ("y" \in DOMAIN e => e.y = n)      \* where the input stopped
                [] e.f = "self" -> Outside(e.w, e.r, e.l, e.h) /\ SubSeq(e.r, e.l + 1, e.l + n) = out
                                   /\ ("x" \in DOMAIN e => e.x = IF e.o = "rotate" THEN Len(out) - e.m ELSE n)
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
