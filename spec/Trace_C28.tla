------------------------------ MODULE Trace_C28 ------------------------------
EXTENDS TraceBase, CTypes
SetOf(q) == {q[i] : i \in 1..Len(q)}
All(q, v) == \A i \in 1..Len(q) : q[i] = v
Accept(e) ==
    CASE e.o = "char" ->
           LET k == Classes(e.c)
           IN /\ SetOf(e.m) = k /\ SetOf(e.f) = k /\ SetOf(e.v) = k /\ SetOf(e.k) = k /\ SetOf(e.w) = k
              /\ All(e.lo, ToLower(e.c)) /\ All(e.up, ToUpper(e.c))
              /\ ("d" \in DOMAIN e => e.d10 = Value(e.c, 10) /\ \A b \in 2..36 : e.d[b - 1] = Value(e.c, b))
      [] e.o = "either" -> e.r = (e.c \in Class(e.x) \cup Class(e.y))
      [] e.o = "nocase" -> LET q == ToLower(e.x) = ToLower(e.y) IN e.r = q /\ e.rv = q /\ e.n = ~q /\ e.nv = ~q
      [] e.o = "text" -> e.r = [i \in 1..Len(e.a) |-> IF e.k = "lo" THEN ToLower(e.a[i]) ELSE ToUpper(e.a[i])]
      [] e.o = "digit" -> \A i \in 1..3 : e.c[i] = DigitChar(e.v) /\ (e.c[4] = IF e.v < 10 THEN DigitChar(e.v) ELSE -1)
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
