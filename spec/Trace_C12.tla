------------------------------ MODULE Trace_C12 ------------------------------
EXTENDS TraceBase, BitFns
B8(v) == {i \in 0..7 : BitOf(v, i)}
Unary(w, x, e) ==
    /\ e.pop = Cardinality(x) /\ e.par = Parity(x) /\ e.clz = Clz(w, x) /\ e.ctz = Ctz(w, x) /\ e.clrsb = Clrsb(w, x) /\ e.len = Length(w, x)
    /\ e.l0 = Clz(w, x) /\ e.l1 = Clz(w, Compl(w, x)) /\ e.t0 = Ctz(w, x) /\ e.t1 = Ctz(w, Compl(w, x))
    /\ OfLimbs(e.rev) = Reverse(w, x)
    /\ OfLimbs(e.i0) = IsoLs0(w, x) /\ OfLimbs(e.i1) = IsoLs1(x)
    /\ OfLimbs(e.mt0) = MaskT0(w, x) /\ OfLimbs(e.mt1) = MaskT1(w, x)
    /\ OfLimbs(e.mt01) = MaskT0Ls1(w, x) /\ OfLimbs(e.mt10) = MaskT1Ls0(w, x)
    /\ OfLimbs(e.r1) = x \ IsoLs1(x) /\ OfLimbs(e.rt1) = x \ MaskT1(w, x)
    /\ OfLimbs(e.s0) = x \cup IsoLs0(w, x) /\ OfLimbs(e.st0) = x \cup MaskT0(w, x)
    /\ OfLimbs(e.c2) = IF e.sg THEN CarryS(w, x) ELSE CarryU(w, x)
    /\ e.esz = w \div 8 /\ Len(e.big) = w \div 8 /\ Len(e.little) = w \div 8 /\ e.def = e.big
    /\ \A i \in 1..w \div 8 : B8(e.little[i]) = ByteLE(x, i - 1) /\ B8(e.big[i]) = ByteLE(x, w \div 8 - i)
    /\ OfLimbs(e.zb) = x /\ OfLimbs(e.zl) = x
Binary(w, x, b, e) ==
    /\ OfLimbs(e.set) = x \cup {b} /\ OfLimbs(e.rst) = x \ {b} /\ OfLimbs(e.flip) = Xor(x, {b}) /\ e.test = (b \in x)
    /\ OfLimbs(e.sge) = x \cup Ge(w, b) /\ OfLimbs(e.rge) = x \ Ge(w, b) /\ OfLimbs(e.fge) = Xor(x, Ge(w, b))
    /\ OfLimbs(e.sle) = x \cup Le(w, b) /\ OfLimbs(e.rle) = x \ Le(w, b) /\ OfLimbs(e.fle) = Xor(x, Le(w, b))
    /\ OfLimbs(e.shal) = ShiftL(w, x, b) /\ OfLimbs(e.shll) = ShiftL(w, x, b) /\ OfLimbs(e.shlr) = ShiftR(w, x, b) /\ OfLimbs(e.shar) = ShiftAR(w, x, b)
    /\ OfLimbs(e.rotl) = Rotl(w, x, b) /\ OfLimbs(e.rotr) = Rotr(w, x, b)
    /\ OfLimbs(e.revin) = ReverseIn(w, x, b + 1)
Accept(e) ==
    LET x == OfLimbs(e.x) IN
    CASE e.o = "u" -> Unary(e.w, x, e)
      [] e.o = "b" -> Binary(e.w, x, e.b, e)
      [] e.o = "n" -> OfLimbs(e.h) = SwapBytes(e.w, x) /\ OfLimbs(e.n) = SwapBytes(e.w, x) /\ OfLimbs(e.rt) = x
TraceNext == PickHistory \/ Consume(Accept)
==============================================================================
