------------------------------ MODULE Trace_C18 ------------------------------
EXTENDS TraceBase, Valarrays
Throws(e) == e.cap - Len(e.a) + 1
View(e) == Select(e.a, Positions(e.k, e.st, e.sa, e.sb))
Ends(v) == IF v = << >> THEN << >> ELSE <<v[1], v[Len(v)]>>
Accept(e) ==
    CASE e.o = "bin"    -> e.r = Binary(e.f, e.m, e.a, e.b)
      [] e.o = "un"     -> e.r = [i \in 1..Len(e.a) |-> Unary(e.f, e.a[i], IF e.f = "const" THEN e.x ELSE 0)]
      [] e.o = "sum"    -> e.r = VSum(e.a)
      [] e.o = "minmax" -> IsMin(e.r, e.a) /\ IsMax(e.m, e.a)
      [] e.o = "shift"  -> e.r = Shift(e.a, e.n)
      [] e.o = "cshift" -> e.r = (IF e.a = << >> THEN << >> ELSE CShift(e.a, e.n))
      [] e.o = "acc"    -> /\ e.f = e.a /\ e.g = e.a /\ e.r = Rev(e.a) /\ e.c = Rev(e.a) /\ e.d = e.a /\ e.at = e.a
                           /\ e.n = Len(e.a) /\ e.em = (e.a = << >>) /\ e.ms = e.cap /\ e.th = Throws(e) /\ e.fr = Ends(e.a)
      [] e.o = "macc"   -> /\ e.f = e.a /\ e.r = Rev(e.a) /\ e.at = e.a /\ e.d = e.a /\ e.c = e.a /\ e.n = Len(e.a)
                           /\ e.z = Const(0, Len(e.a)) /\ e.w = Const(e.x, Len(e.a)) /\ e.e = << >> /\ e.cp = e.a /\ e.tv = e.a
      [] e.o = "over"   -> e.th = 3
      [] e.o = "cget"   -> e.r = View(e)
      [] e.o = "view"   -> LET v == View(e) IN
                           /\ e.f = v /\ e.r = Rev(v) /\ e.at = v /\ e.ix = v /\ e.v = v /\ e.n = Len(v) /\ e.em = (v = << >>) /\ e.th = 2 /\ e.fr = Ends(v)
      [] e.o = "make"   -> \A i \in 1..Len(e.r) : e.r[i] = e.a
      [] e.o = "hash"   -> e.same = TRUE
      [] e.o = "math"   -> Len(e.r) = Len(e.a) /\ \A i \in 1..Len(e.a) : e.r[i] = e.each[i]
      [] e.o = "iabs"   -> e.r = [i \in 1..Len(e.a) |-> IF e.a[i] < 0 THEN -e.a[i] ELSE e.a[i]]
TraceNext == PickHistory \/ Consume(Accept)
===============================================================================
