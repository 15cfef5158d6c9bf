----------------------------- MODULE Containers -----------------------------
(* C10: a container is one element sequence seen through many paths, here a  *)
(* window [l, h) of a buffer b (a whole container has l = 0, h = Len(b)).    *)
EXTENDS Windows

(* ---- one observation of a container whose elements are e.a *)
PathsAgree(e) ==
    LET n == Len(e.a) IN
    /\ \A i \in 1..Len(e.p) : e.p[i] = e.a                       \* every forward path
    /\ \A i \in 1..Len(e.q) : e.q[i] = Reverse(e.a)              \* every backward path
    /\ \A i \in 1..Len(e.n) : e.n[i] = n
    /\ \A i \in 1..Len(e.e) : e.e[i] = (n = 0)
    /\ \A i \in 1..Len(e.f) : e.f[i] = e.a[1]
    /\ \A i \in 1..Len(e.b) : e.b[i] = e.a[n]
    /\ \A i \in 1..Len(e.i) \div 2 : e.i[2 * i - 1] = e.i[2 * i] \* index_of(nth(i)) = i
    /\ \A i \in 1..Len(e.t) : e.t[i]                             \* out of range throws, in range does not

(* ---- comparison *)
RECURSIVE LexLess(_, _)
LexLess(a, b) == b # << >> /\ (a = << >> \/ Head(a) < Head(b) \/ (Head(a) = Head(b) /\ LexLess(Tail(a), Tail(b))))
ComparesOk(e) == /\ e.eq = (e.a = e.b) /\ e.ne = (e.a # e.b)
                 /\ e.lt = LexLess(e.a, e.b) /\ e.gt = LexLess(e.b, e.a)
                 /\ e.le = ~LexLess(e.b, e.a) /\ e.ge = ~LexLess(e.a, e.b)
                 /\ (e.a = e.b => e.h)                           \* equal containers hash alike

(* ---- the windowed container as a machine: w = [b, l, h] *)
IsWindow(w) == 0 <= w.l /\ w.l <= w.h /\ w.h <= Len(w.b)
Content(w) == SubSeq(w.b, w.l + 1, w.h)
SetB(w, i, v) == [w EXCEPT !.b[i + 1] = v]
Enabled(o, w) == CASE o = "push_back" -> w.h < Len(w.b)
                   [] o = "push_front" -> w.l > 0
                   [] o \in {"pop_back", "pop_front", "drop_back", "drop_front"} -> w.l < w.h
                   [] OTHER -> TRUE
WStep(e, w) ==
    CASE e.o = "put" -> SetB(w, w.l + e.i, e.v)
      [] e.o = "fill" -> [w EXCEPT !.b = [i \in 1..Len(w.b) |-> IF i > w.l /\ i <= w.h THEN e.v ELSE w.b[i]]]
      [] e.o = "push_back" -> [SetB(w, w.h, e.v) EXCEPT !.h = w.h + 1]
      [] e.o = "pop_back" -> [SetB(w, w.h - 1, 0) EXCEPT !.h = w.h - 1]
      [] e.o = "drop_back" -> [w EXCEPT !.h = w.h - 1]
      [] e.o = "push_front" -> [SetB(w, w.l - 1, e.v) EXCEPT !.l = w.l - 1]
      [] e.o = "pop_front" -> [SetB(w, w.l, 0) EXCEPT !.l = w.l + 1]
      [] e.o = "drop_front" -> [w EXCEPT !.l = w.l + 1]
      [] e.o = "window" -> [w EXCEPT !.l = e.f, !.h = e.t]                       \* in the buffer
      [] e.o = "offset" -> [w EXCEPT !.l = w.l + e.f, !.h = w.h + e.t]           \* from its own ends
      [] e.o = "narrow" -> [w EXCEPT !.l = w.l + e.f, !.h = w.l + e.t]           \* in the window
      [] OTHER -> w
=============================================================================
