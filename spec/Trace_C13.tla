------------------------------ MODULE Trace_C13 ------------------------------
EXTENDS TraceBase, Strings
B01(b) == IF b THEN 1 ELSE 0
Fits(e, r) == IF Len(r) > e.cap THEN e.th ELSE ~e.th /\ e.r = r
(* formatted input: the leading non-blank characters, at most the capacity (or the width) *)
Skip(i) == LET S == {k \in 1..Len(i) : i[k] # 32} IN IF S = {} THEN Len(i) ELSE (CHOOSE k \in S : \A j \in S : k <= j) - 1
Word(i, m) == LET S == {k \in 1..Len(i) : i[k] = 32 \/ k > m} IN IF S = {} THEN i ELSE SubSeq(i, 1, (CHOOSE k \in S : \A j \in S : k <= j) - 1)
Accept(e) ==
    CASE e.o = "q" -> e.r = Finds(e.s, e.t, e.p)
      [] e.o = "q0" -> e.r = LET a == Finds(e.s, e.t, 0)  z == Finds(e.s, e.t, 1000) IN <<a[1], z[2], a[3], z[4], a[5], z[6]>>
      [] e.o = "cmp" -> e.r = IF e.p1 > Len(e.s) \/ e.p2 > Len(e.t) THEN 9 ELSE Cmp(Sub(e.s, e.p1, e.n1), Sub(e.t, e.p2, e.n2))
      [] e.o = "rel" -> e.r = [i \in 1..6 |-> B01(Rel(e.s, e.t)[i])]
      [] e.o = "hash" -> (e.s = e.t => e.r)
      [] e.o = "sub" -> IF e.p > Len(e.s) THEN e.th ELSE ~e.th /\ e.r = Sub(e.s, e.p, e.n)
      [] e.o = "cat" -> e.r = e.s \o e.t
      [] e.o = "shl" -> Fits(e, e.s \o e.t)
      [] e.o = "shr" -> Fits(e, e.t \o e.s)
      [] e.o = "make" -> Fits(e, SubSeq(e.s, 1, e.n))
      [] e.o = "shrink" -> e.r = Sub(e.s, 0, e.cap)
      [] e.o = "join" -> e.r = JoinStr(e.v, e.sep)
      [] e.o = "in" -> LET k == Skip(e.i)  w == Word(SubSeq(e.i, k + 1, Len(e.i)), IF e.w > 0 /\ e.w < e.cap THEN e.w ELSE e.cap)
                       IN IF w = << >> THEN e.fail ELSE ~e.fail /\ e.r = w /\ e.rest = Len(e.i) - k - Len(w)
      [] e.o = "out" -> e.r = e.s
TraceNext == PickHistory \/ Consume(Accept)
==============================================================================
