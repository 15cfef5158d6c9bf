----------------------------- MODULE MC_Containers -----------------------------
(* The windowed container as a machine: the window stays inside the buffer,     *)
(* pushes and pops act on its content as on a sequence, nothing outside changes. *)
EXTENDS Containers, TLC
CONSTANTS N, K
VARIABLE w
Init == w \in [b : [1..N -> 0..K - 1], l : 0..N, h : 0..N] /\ IsWindow(w)
Ops == {[o |-> o, v |-> v] : o \in {"push_back", "push_front", "fill"}, v \in 0..K - 1}
       \cup {[o |-> o] : o \in {"pop_back", "pop_front", "drop_back", "drop_front"}}
Keeps(u, t, lo, hi) == \A i \in 1..N : (i <= lo \/ i > hi) => t.b[i] = u.b[i]
Effect(e, u, t) ==
    LET a == Content(u)  r == Content(t) IN
    /\ IsWindow(t) /\ Len(t.b) = N
    /\ CASE e.o = "push_back" -> r = Append(a, e.v) /\ Keeps(u, t, u.h, u.h + 1)
         [] e.o = "push_front" -> r = <<e.v>> \o a /\ Keeps(u, t, u.l - 1, u.l)
         [] e.o \in {"pop_back", "drop_back"} -> r = SubSeq(a, 1, Len(a) - 1) /\ Keeps(u, t, u.h - 1, u.h)
         [] e.o \in {"pop_front", "drop_front"} -> r = Tail(a) /\ Keeps(u, t, u.l, u.l + 1)
         [] e.o = "fill" -> r = Fill(Len(a), e.v) /\ Keeps(u, t, u.l, u.h)
Step(e) == Enabled(e.o, w) /\ LET t == WStep(e, w) IN Assert(Effect(e, w, t), <<e, w, t>>) /\ w' = t
Next == \/ \E e \in Ops : Step(e)
        \/ \E f \in 0..N, t \in 0..N : f <= t /\ w' = WStep([o |-> "window", f |-> f, t |-> t], w)
                                            /\ Assert(w' = WStep([o |-> "offset", f |-> f - w.l, t |-> t - w.h], w), "offset")
        \/ \E f \in 0..N, t \in 0..N : f <= t /\ t <= w.h - w.l /\ w' = WStep([o |-> "narrow", f |-> f, t |-> t], w)
                                            /\ Assert(Content(w') = SubSeq(Content(w), f + 1, t), "narrow")
Inv == IsWindow(w)
================================================================================
