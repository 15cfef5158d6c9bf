------------------------------ MODULE Trace_C11 ------------------------------
(* Histories of two bitsets x, y of one width n; s = [n, x, y]. *)
EXTENDS TraceHist, Bits
NewX(st, e) ==
    LET n == st.n  x == st.x  y == st.y IN
    CASE e.o = "setall" -> Univ(n)
      [] e.o = "resetall" -> {}
      [] e.o = "flipall" -> Compl(n, x)
      [] e.o = "put" -> IF e.v THEN x \cup {e.i} ELSE x \ {e.i}
      [] e.o = "flip" -> Xor(x, {e.i})
      [] e.o = "and" -> x \cap y
      [] e.o = "or" -> x \cup y
      [] e.o = "xor" -> Xor(x, y)
      [] e.o = "shl" -> ShiftL(n, x, e.k)
      [] e.o = "shr" -> ShiftR(n, x, e.k)
      [] e.o \in {"copy", "swap"} -> y
      [] e.o = "val" -> OfLimbs(e.v) \cap Univ(n)
      [] e.o = "text" -> IF e.th = "no" THEN OfText(n, e.s, e.p, e.n) ELSE x
      [] e.o = "io" -> IF Digits(n, e.s) = 0 THEN x ELSE OfText(n, SubSeq(e.s, 1, Digits(n, e.s)), 0, 1000)
      [] OTHER -> x
Nxt(st, e) == IF e.o = "init" THEN [n |-> e.w, x |-> {}, y |-> {}]
              ELSE [n |-> st.n, x |-> NewX(st, e), y |-> IF e.o = "swap" THEN st.x ELSE st.y]
Observed(n, x, y, e) ==
    /\ BSeq(e.x) = x /\ BSeq(e.y) = y /\ BSeq(e.ix) = x /\ BSeq(e.st) = x
    /\ e.sl = n /\ e.sz = n /\ e.t2 /\ e.os /\ e.rb
    /\ e.cnt = Cardinality(x) /\ e.any = (x # {}) /\ e.none = (x = {}) /\ e.all = (x = Univ(n))
       (* find_first, then find_next until exhausted: ascending, each the next set bit, ending in n *)
    /\ e.ch[1] = MinOf(x, n) /\ e.ch[Len(e.ch)] = n
    /\ \A i \in 1..Len(e.ch) - 1 : e.ch[i + 1] = NextBit(n, x, e.ch[i])
    /\ e.eq = (x = y) /\ e.ne = (x # y) /\ (x = y => e.hq)
    /\ e.uo = (\E i \in x : i >= 64) /\ e.vo = e.uo
    /\ (~e.uo => OfLimbs(e.ul) = x /\ OfLimbs(e.vl) = x)
Ok(st, e) == /\ LET t == Nxt(st, e) IN Observed(t.n, t.x, t.y, e)
             /\ (e.o = "oor" => e.th)
             /\ (e.o = "text" => e.th = IF e.p > Len(e.s) THEN "range" ELSE IF BadText(st.n, e.s, e.p, e.n) THEN "invalid" ELSE "no")
             /\ (e.o = "io" => e.fail = (Digits(st.n, e.s) = 0 /\ (st.n > 0 \/ e.s = << >>)) /\ e.rest = Len(e.s) - Digits(st.n, e.s))
TraceInit == HistInit([n |-> 0, x |-> {}, y |-> {}])
TraceNext == PickHistory \/ Consume(Ok, Nxt)
===============================================================================
