------------------------------ MODULE Trace_C23 ------------------------------
EXTENDS TraceBase, Hypercomplex
Un(f, a) ==
    CASE f \in {"+", "copy", "set", "lit0"} -> Pad(a)
      [] f = "-" -> QNeg(a)
      [] f = "conj" -> QConj(a)
      [] f = "perp" -> <<-Pad(a)[2], Pad(a)[1], 0, 0>>
      [] f = "real" -> <<a[1], 0, 0, 0>>
      [] f = "imag" -> <<Pad(a)[2], 0, 0, 0>>
      [] f = "unreal" -> [Pad(a) EXCEPT ![1] = 0]
      [] f = "norm" -> <<QNorm(a) \div S, 0, 0, 0>>
      [] f = "zero" -> <<0, 0, 0, 0>>
      [] f = "l1" -> <<QL1(a), 0, 0, 0>>
      [] f = "sup" -> <<QSup(a), 0, 0, 0>>
      [] f = "lo" -> QLo(a) \o <<0, 0>>
      [] f = "hi" -> QHi(a) \o <<0, 0>>
      [] f = "lit" -> <<0, a[1], 0, 0>>
      [] f = "lj" -> <<0, 0, a[1], 0>>
      [] f = "lk" -> <<0, 0, 0, a[1]>>
      [] f \in {"ceil", "floor", "trunc", "round"} -> Each(a, f)
Accept(e) ==
    CASE e.o = "bin" /\ e.f = "+" -> Pad(e.r) = QAdd(e.a, e.b)
      [] e.o = "bin" /\ e.f = "-" -> Pad(e.r) = QSub(e.a, e.b)
      [] e.o = "bin" /\ e.f = "*" -> QScale(S, e.r) = QMul(e.a, e.b)
      [] e.o = "div" -> QMul(e.r, e.b) = QScale(S, e.a)
      [] e.o = "cmp" -> e.eq = Same(e.a, e.b) /\ e.ne = ~Same(e.a, e.b)
      [] e.o = "un" -> Pad(e.r) = Un(e.f, e.a)
      [] e.o = "seen" -> (\A k \in 1..Len(e.r) : e.r[k] = e.a) /\ e.thr /\ e.hsh /\ e.get = e.a /\ e.siz = <<Len(e.a), Len(e.a), Len(e.a), 0>>
      [] e.o = "out" -> e.tx = TextOf(e.a) /\ e.ok /\ e.r = e.a
      [] e.o = "in" -> LET g == ReadAs(e.n, e.tx) IN e.ok = g.ok /\ Pad(e.r) = (IF g.ok THEN Pad(g.v) ELSE Pad(<<7 * S, 8 * S>>))
      [] e.o = "abs" -> \A k \in 1..Len(e.r) : e.r[k] >= 0 /\ e.r[k] * e.r[k] = e.n * S * S
      [] OTHER -> FALSE
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
