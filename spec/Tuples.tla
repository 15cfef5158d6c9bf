------------------------------- MODULE Tuples -------------------------------
(* C17: a tuple is the sequence of its elements.                              *)
EXTENDS Integers, Sequences, SequencesExt

(* tuple made from another, keeping as many elements as fit, zero elsewhere *)
Flex(a, n) == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 0]
(* b written over the front of a *)
Overlay(a, b) == [i \in 1..Len(a) |-> IF i <= Len(b) THEN b[i] ELSE a[i]]

TupleOp(o, a, b, k) ==
    CASE o \in {"push_back", "append_back"}   -> a \o b
      [] o \in {"push_front", "append_front"} -> b \o a
      [] o = "pop_back"  -> SubSeq(a, 1, Len(a) - 1)
      [] o = "pop_front" -> SubSeq(a, 2, Len(a))
      [] o = "copy"      -> Overlay(a, b)
      [] o = "flex"      -> Flex(a, k)
      [] o = "same"      -> a

(* lexicographic order: -1, 0, 1 *)
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = << >> THEN (IF b = << >> THEN 0 ELSE -1) ELSE IF b = << >> THEN 1
             ELSE IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1 ELSE Lex(Tail(a), Tail(b))
TBit(b, w) == IF b THEN w ELSE 0
RelTuple(a, b) == LET r == Lex(a, b) IN TBit(r = 0, 1) + TBit(r # 0, 2) + TBit(r < 0, 4) + TBit(r > 0, 8) + TBit(r <= 0, 16) + TBit(r >= 0, 32)

(* histories: x two tuples, u a tuple of other types, p two pairs, q a pair of other types *)
Zero2 == <<0, 0>>
FreshT == [x |-> <<Zero2, Zero2>>, u |-> Zero2, p |-> <<Zero2, Zero2>>, q |-> Zero2]
NxtT(st, e) ==
    CASE e.o = "init"   -> FreshT
      [] e.o = "setx"   -> [st EXCEPT !.x[e.i] = <<e.v, e.w>>]
      [] e.o = "copyx"  -> [st EXCEPT !.x[e.i] = st.x[3 - e.i]]
      [] e.o = "xfromu" -> [st EXCEPT !.x[e.i] = st.u]
      [] e.o = "xfromp" -> [st EXCEPT !.x[e.i] = st.p[e.i]]
      [] e.o = "xfromq" -> [st EXCEPT !.x[e.i] = st.q]
      [] e.o = "swapx"  -> [st EXCEPT !.x = <<st.x[2], st.x[1]>>]
      [] e.o = "x0"     -> [st EXCEPT !.x[e.i][1] = e.v]
      [] e.o = "x1"     -> [st EXCEPT !.x[e.i][2] = e.w]
      [] e.o = "setu"   -> [st EXCEPT !.u = <<e.v, e.w>>]
      [] e.o = "ufromq" -> [st EXCEPT !.u = st.q]
      [] e.o = "setp"   -> [st EXCEPT !.p[e.i] = <<e.v, e.w>>]
      [] e.o = "copyp"  -> [st EXCEPT !.p[e.i] = st.p[3 - e.i]]
      [] e.o = "pfromq" -> [st EXCEPT !.p[e.i] = st.q]
      [] e.o = "pfromx" -> [st EXCEPT !.p[e.i] = st.x[e.i]]
      [] e.o = "pfromu" -> [st EXCEPT !.p[e.i] = st.u]
      [] e.o = "swapp"  -> [st EXCEPT !.p = <<st.p[2], st.p[1]>>]
      [] e.o = "setq"   -> [st EXCEPT !.q = <<e.v, e.w>>]
      [] e.o = "zero"   -> [st EXCEPT !.x[e.i] = Zero2, !.p[e.i] = Zero2]
      [] OTHER -> st
==============================================================================
