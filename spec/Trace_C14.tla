------------------------------ MODULE Trace_C14 ------------------------------
EXTENDS TraceBase, CStrings
B01(b) == IF b THEN 1 ELSE 0
Accept(e) ==
    CASE e.o = "q" -> e.r = Finds(e.s, e.t, e.p)
      [] e.o = "q0" -> e.r = LET a == Finds(e.s, e.t, 0)  z == Finds(e.s, e.t, 1000) IN <<a[1], z[2], a[3], z[4], a[5], z[6]>>
      [] e.o = "cmp" -> e.r = IF e.p1 > Len(e.s) \/ e.p2 > Len(e.t) THEN 9 ELSE Cmp(Sub(e.s, e.p1, e.n1), Sub(e.t, e.p2, e.n2))
      [] e.o = "rel" -> e.r = [i \in 1..6 |-> B01(Rel(e.s, e.t)[i])]
      [] e.o = "hash" -> (e.s = e.t => e.r)
      [] e.o = "sub" -> IF e.p > Len(e.s) THEN e.th ELSE ~e.th /\ e.r = Sub(e.s, e.p, e.n)
      [] e.o = "ends" -> e.r = <<B01(Len(e.t) <= Len(e.s) /\ Sub(e.s, 0, Len(e.t)) = e.t),
                                 B01(Len(e.t) <= Len(e.s) /\ Sub(e.s, Len(e.s) - Len(e.t), 1000) = e.t)>>
      [] e.o = "out" -> e.r = e.s
      [] e.o = "c2" -> /\ e.cmp = Cmp(e.s, e.t) /\ e.coll = e.cmp /\ e.len = Len(e.s)
                       /\ e.spn = Span(e.s, e.t) /\ e.cspn = CSpan(e.s, e.t)
                       /\ e.pbrk = PBrk(e.s, e.t) /\ e.pbrkw = e.pbrk /\ e.str = StrStr(e.s, e.t) /\ e.strw = e.str
      [] e.o = "nc" -> e.r = NCmp(e.s, e.t, e.n) /\ e.nlen = Min2(Len(e.s), e.n)
      [] e.o = "chr" -> LET a == Chr(e.s, e.c)  z == RChr(e.s, e.c) IN e.r = <<a, a, z, z>>
      [] e.o = "mc" -> e.r = NCmp(e.s, e.t, e.n)
      [] e.o = "mchr" -> e.r = MChr(e.s, e.c, e.n) /\ e.w = e.r
      [] e.o = "mmove" \/ e.o = "mcpy" -> e.r = MMove(e.b, e.d, e.s, e.n) /\ e.ret = e.d
      [] e.o = "mset" -> e.r = MSet(e.b, e.d, e.s, e.n) /\ e.ret = e.d
      [] e.o = "cpy" -> e.r = Cpy(e.b, e.d, e.s) /\ e.ret = e.d
      [] e.o = "ncpy" -> e.r = NCpy(e.b, e.d, e.s, e.n) /\ e.ret = e.d
      [] e.o = "cat" -> e.r = Cat(e.b, e.d, e.s) /\ e.ret = e.d
      [] e.o = "ncat" -> e.r = NCat(e.b, e.d, e.s, e.n) /\ e.ret = e.d
TraceNext == PickHistory \/ Consume(Accept)
==============================================================================
