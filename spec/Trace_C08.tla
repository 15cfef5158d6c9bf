------------------------------ MODULE Trace_C08 ------------------------------
(* A history of operations on an array A, a reference window R and an owning  *)
(* window C; every event carries the whole state observed after it.           *)
EXTENDS TraceHist, WindowOps
Obs(e) == WS(e.z.a, e.z.rl, e.z.rh, e.z.cw, e.z.cl, e.z.ch)
(* what iteration, indexing and size of the windows show, and what comparing them answers *)
Shown(e) == LET R == Win(e.z.a, e.z.rl, e.z.rh)  C == Win(e.z.cw, e.z.cl, e.z.ch) IN
    /\ e.z.rv = R /\ e.z.cv = C /\ "bad" \notin DOMAIN e.z
    /\ e.z.eq = (R = C)
    /\ e.z.lt = (\E k \in 0..Min2(Len(R), Len(C)) : Prefix(R, k) = Prefix(C, k)
                   /\ (IF k < Len(R) /\ k < Len(C) THEN R[k + 1] < C[k + 1] ELSE k = Len(R) /\ k < Len(C)))
Ok(z, e) == IF e.o = "start" THEN Shown(e) ELSE Obs(e) = Step(z, e) /\ Shown(e)
Nxt(z, e) == Obs(e)
TraceInit == HistInit(WS(<< >>, 0, 0, << >>, 0, 0))
TraceNext == PickHistory \/ Consume(Ok, Nxt)
==============================================================================
