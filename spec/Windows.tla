------------------------------- MODULE Windows -------------------------------
(* A container value is a buffer w with a window [l, h) (0-based); a whole   *)
(* array has the window [0, Len(w)).  A functional operation changes only    *)
(* elements inside the window and keeps the window's position.               *)
EXTENDS SeqBase

Win(w, l, h) == SubSeq(w, l + 1, h)
Outside(w, r, l, h) == Len(w) = Len(r) /\ \A i \in 1..Len(w) : (i <= l \/ i > h) => w[i] = r[i]

(* e: buffer e.w window [e.l,e.h) before, e.r [e.rl,e.rh) after; argument unchanged *)
Before(e) == Win(e.w, e.l, e.h)
After(e) == Win(e.r, e.l, e.h)
Framed(e) == Outside(e.w, e.r, e.l, e.h) /\ e.rl = e.l /\ "w2" \notin DOMAIN e
Fixed(e) == Framed(e) /\ e.rh = e.h
Fit(e, n) == Framed(e) /\ e.rh = e.l + n
(* out placed at the front of the window, truncated to it; the rest of the window keeps w's elements *)
Placed(w, l, h, out) == LET n == Min2(Len(out), h - l) IN SubSeq(w, 1, l) \o Prefix(out, n) \o SubSeq(w, l + n + 1, Len(w))
=============================================================================
