------------------------------ MODULE Optionals ------------------------------
(* C15: three optionals x[1..3] (a sequence of at most one value each), and   *)
(* u: for optionals of values, a fourth optional of another type; for         *)
(* optionals of references, the three cells the slots may refer to (a slot    *)
(* then holds the index of its cell).                                          *)
EXTENDS Integers, Sequences

Put(st, i, o) == [st EXCEPT !.x[i] = o]
NxtOpt(st, e) ==
    CASE e.o = "none"  -> Put(st, e.i, << >>)
      [] e.o = "set"   -> Put(st, e.i, <<e.v>>)
      [] e.o = "setif" -> Put(st, e.i, IF e.k = 1 THEN <<e.v>> ELSE << >>)
      [] e.o = "copy"  -> Put(st, e.i, st.x[e.j])
      [] e.o = "swap"  -> [st EXCEPT !.x[e.i] = st.x[e.j], !.x[e.j] = st.x[e.i]]
      [] e.o = "setu"  -> [st EXCEPT !.u = <<e.v>>]
      [] e.o = "noneu" -> [st EXCEPT !.u = << >>]
      [] e.o = "fromu" -> Put(st, e.i, st.u)
      [] e.o = "write" -> [st EXCEPT !.u[st.x[e.i][1]] = e.v]              \* through a reference
      [] OTHER -> st

(* what a slot compares as: its value, or the value of the cell it refers to *)
Deref(st, o) == IF st.ref /\ o # << >> THEN <<st.u[o[1]]>> ELSE o
CmpOpt(a, b) == IF a = b THEN 0 ELSE IF a = << >> THEN -1 ELSE IF b = << >> THEN 1 ELSE IF a[1] < b[1] THEN -1 ELSE 1
Bit(b, w) == IF b THEN w ELSE 0
RelOpt(a, b) == LET r == CmpOpt(a, b) IN Bit(r = 0, 1) + Bit(r # 0, 2) + Bit(r < 0, 4) + Bit(r > 0, 8) + Bit(r <= 0, 16) + Bit(r >= 0, 32)

AtMostOne(st) == \A i \in 1..3 : Len(st.x[i]) <= 1
==============================================================================
