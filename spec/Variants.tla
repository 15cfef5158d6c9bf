------------------------------ MODULE Variants ------------------------------
(* C16: three variants, each the pair <<index of the alternative, its value>> *)
EXTENDS Integers, Sequences
NxtVar(st, e) ==
    CASE e.o = "clear" -> [st EXCEPT ![e.i] = <<0, 0>>]                    \* the first alternative, default value
      [] e.o = "set"   -> [st EXCEPT ![e.i] = e.v]
      [] e.o = "copy"  -> [st EXCEPT ![e.i] = st[e.j]]
      [] e.o = "swap"  -> [st EXCEPT ![e.i] = st[e.j], ![e.j] = st[e.i]]
      [] e.o = "poke"  -> [st EXCEPT ![e.i][2] = e.v[2]]                   \* write through a reference: same alternative
      [] OTHER -> st
LtVar(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Bit(b, w) == IF b THEN w ELSE 0
RelVar(a, b) == Bit(a = b, 1) + Bit(a # b, 2) + Bit(LtVar(a, b), 4) + Bit(LtVar(b, a), 8) + Bit(~LtVar(b, a), 16) + Bit(~LtVar(a, b), 32)
=============================================================================
