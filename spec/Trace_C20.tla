------------------------------ MODULE Trace_C20 ------------------------------
EXTENDS TraceBase, Pipelines, Cursors
View(e) ==
    LET s == Pipe(e.st, e.a) IN
    /\ e.f = s /\ e.f2 = s /\ e.n = Len(s) /\ e.em = (s = << >>)
    /\ e.ix = s /\ e.at = s /\ e.th = 1
    /\ e.fb = (IF s = << >> THEN << >> ELSE <<s[1], s[Len(s)], s[1], s[Len(s)]>>)
    /\ e.c4 = CopiedInto(<<90, 91, 92, 93>>, s) /\ e.c3 = CopiedInto(<<0, 0, 0>>, s)
(* a view of the odd elements designates by value *)
Written(e) ==
    LET D == IF e.k = "filter" THEN {i \in 1..Len(e.a) : Odd(e.a[i])} ELSE Designated(e.s, Len(e.a))
    IN e.r = [i \in 1..Len(e.a) |-> IF i \in D THEN 55 ELSE e.a[i]]
Accept(e) ==
    CASE e.o = "view" -> View(e)
      [] e.o = "it" -> "w" \in DOMAIN e /\ Observed(Pipe(e.st, e.a), e)
      [] e.o = "write" -> Written(e)
      [] e.o = "free" -> e.cn = [i \in 1..e.y |-> e.x + i - 1] /\ e.bl = [i \in 1..e.y |-> e.x] /\ e.nn = <<e.y, e.y>>
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
