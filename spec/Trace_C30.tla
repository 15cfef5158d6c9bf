------------------------------ MODULE Trace_C30 ------------------------------
EXTENDS TraceBase, Brainfuck
B01(b) == IF b THEN 1 ELSE 0
RunOK(e) ==
    LET m == Run(e.p, e.inp, e.endless, Len(e.blank), [lo |-> e.lo, n |-> e.n], Start(e.tape), 4000)
        want == [k \in 1..Len(e.blank) |-> IF k <= Len(m.out) THEN m.out[k] ELSE e.blank[k]]
    IN CASE m.err \in {"undefined", "fuel"} -> TRUE
         [] m.err = "none" -> \A k \in 1..Len(e.ok) : e.ok[k] = 1 /\ e.r[k] = want
         [] OTHER -> \A k \in 1..Len(e.ok) : e.ok[k] = 0
Keep(w, n, ch) == [k \in 1..n |-> IF k <= Len(w) THEN w[k] ELSE ch]
Accept(e) ==
    CASE e.o = "run" -> RunOK(e)
      [] e.o = "formed" -> \A k \in 1..Len(e.r) : e.r[k] = B01(WellFormed(e.p))
      [] e.o = "ook" -> LET w == Keep(Translate(e.t, 1, OokTable, e.cap), e.cap, 35) IN \A k \in 1..Len(e.r) : e.ok[k] = 1 /\ e.r[k] = w
      [] e.o = "misa" -> LET w == Keep(Translate(e.t, 1, MisaTable, e.cap), e.cap, 35) IN \A k \in 1..Len(e.r) : e.ok[k] = 1 /\ e.r[k] = w
      [] OTHER -> FALSE
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
