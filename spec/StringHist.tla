------------------------------ MODULE StringHist ------------------------------
(* The bounded string as a state machine: x of capacity n, y of capacity m.    *)
(* An edit whose result would not fit throws and leaves x as it was.           *)
EXTENDS Strings
Rep(k, ch) == [i \in 1..k |-> ch]
(* the value an edit would give x, or "bad" for a position past the end *)
Want(st, e) ==
    LET x == st.x  y == st.y IN
    CASE e.o = "assign" -> e.t
      [] e.o = "append" -> x \o e.t
      [] e.o = "prepend" -> e.t \o x
      [] e.o = "pop" -> SubSeq(x, 1, Len(x) - 1)
      [] e.o = "resize" -> IF e.n <= Len(x) THEN SubSeq(x, 1, e.n) ELSE x \o Rep(e.n - Len(x), e.c)
      [] e.o = "clear" -> << >>
      [] e.o = "put" -> [x EXCEPT ![e.i + 1] = e.c]
      [] e.o \in {"assigny", "swap"} -> y
      [] e.o = "assignsub" -> Sub(y, e.p, e.k)
      [] e.o = "appendy" -> x \o y
      [] e.o = "appendsub" -> x \o Sub(y, e.p, e.k)
      [] e.o = "prependy" -> y \o x
      [] e.o = "selfassign" -> Sub(x, e.p, e.k)
      [] e.o = "selfappend" -> x \o Sub(x, e.p, e.k)
      [] e.o = "substr" -> Sub(x, e.p, e.k)
      [] OTHER -> x
Throws(st, e) == CASE e.o \in {"assignsub", "appendsub"} -> e.p > Len(st.y) \/ Len(Want(st, e)) > st.n
                   [] e.o = "substr" -> e.p > Len(st.x)
                   [] e.o = "atthrow" -> TRUE
                   [] OTHER -> Len(Want(st, e)) > st.n
NxtStr(st, e) == CASE e.o = "init" -> [n |-> e.n, m |-> e.m, x |-> << >>, y |-> << >>]
                   [] e.o = "sety" -> [st EXCEPT !.y = e.t]
                   [] OTHER -> IF Throws(st, e) THEN st ELSE [st EXCEPT !.x = Want(st, e), !.y = IF e.o = "swap" THEN st.x ELSE st.y]
Bounded(st) == Len(st.x) <= st.n /\ Len(st.y) <= st.m
===============================================================================
