------------------------------ MODULE WindowOps ------------------------------
(* C08: an array a, a window R = [rl, rh) aliasing it, and an owning window   *)
(* value C: its own buffer cw with the window [cl, ch).  Step gives the state *)
(* after each operation; every operation is deterministic.                    *)
EXTENDS Transforms, Windows

WS(a, rl, rh, cw, cl, ch) == [a |-> a, rl |-> rl, rh |-> rh, cw |-> cw, cl |-> cl, ch |-> ch]
PutAt(w, i, v) == [w EXCEPT ![i + 1] = v]
FillWin(w, l, h, v) == [i \in 1..Len(w) |-> IF i > l /\ i <= h THEN v ELSE w[i]]

(* the buffer and window operation e acts on *)
Buf(z, t) == IF t = "C" THEN z.cw ELSE z.a
Lo(z, t) == CASE t = "A" -> 0 [] t = "R" -> z.rl [] t = "C" -> z.cl
Hi(z, t) == CASE t = "A" -> Len(z.a) [] t = "R" -> z.rh [] t = "C" -> z.ch
(* z with the buffer/window of t replaced *)
With(z, t, w, l, h) == CASE t = "A" -> [z EXCEPT !.a = w]
                         [] t = "R" -> [z EXCEPT !.a = w, !.rl = l, !.rh = h]
                         [] t = "C" -> [z EXCEPT !.cw = w, !.cl = l, !.ch = h]
(* z after the value (w, [l,h)) computed from t is stored: by reference in R, by value in C *)
Store(z, d, w, l, h) == IF d = "R" THEN [z EXCEPT !.rl = l, !.rh = h] ELSE [z EXCEPT !.cw = w, !.cl = l, !.ch = h]

Algs == {"copy", "copy_if", "transform", "replace", "replace_if", "remove", "remove_if", "unique", "reverse", "rotate",
         "swap_element", "fill", "fill_n"}
Trimming == {"copy", "copy_if", "remove", "remove_if", "unique", "fill_n"}

Step(z, e) ==
    LET w == Buf(z, e.t)  l == Lo(z, e.t)  h == Hi(z, e.t) IN
    CASE e.o = "set" -> With(z, e.t, PutAt(w, l + e.i, e.v), l, h)
      [] e.o = "fillw" -> With(z, e.t, FillWin(w, l, h, e.v), l, h)
      [] e.o = "push_back" -> With(z, e.t, PutAt(w, h, e.v), l, h + 1)
      [] e.o = "push_front" -> With(z, e.t, PutAt(w, l - 1, e.v), l - 1, h)
      [] e.o = "pop_back" -> With(z, e.t, PutAt(w, h - 1, 0), l, h - 1)
      [] e.o = "pop_front" -> With(z, e.t, PutAt(w, l, 0), l + 1, h)
      [] e.o = "drop_back" -> With(z, e.t, w, l, h - 1)
      [] e.o = "drop_front" -> With(z, e.t, w, l + 1, h)
      (* window: absolute positions; offset: relative to the window's ends; sub: relative to the window's front *)
      [] e.o = "window" -> Store(z, e.d, w, e.i, e.j)
      [] e.o = "window1" -> Store(z, e.d, w, e.i, Len(w))
      [] e.o = "offset" -> Store(z, e.d, w, l + e.i, h + e.j)
      [] e.o = "sub" -> Store(z, e.d, w, l + e.i, l + e.j)
      [] e.o = "sub1" -> Store(z, e.d, w, l + e.i, h)
      (* a functional algorithm on window t, its result kept in C *)
      [] e.o = "alg" ->
            LET x == [e EXCEPT !.o = e.g]
                out == IF e.g = "sort" THEN StableSort("lt", Win(w, l, h)) ELSE Out(x, IF "a" \in DOMAIN e THEN e.a ELSE Win(w, l, h))
                n == IF e.g \in Trimming THEN Min2(Len(out), h - l) ELSE h - l
            IN Store(z, "C", Placed(w, l, h, out), l, IF e.f = "fit" THEN l + n ELSE h)
      (* an in-place algorithm through the iterators of t: the window itself stays *)
      [] e.o = "inplace" ->
            LET x == [e EXCEPT !.o = e.g]
                out == IF e.g = "sort" THEN StableSort("lt", Win(w, l, h)) ELSE Out(x, Win(w, l, h))
            IN With(z, e.t, Placed(w, l, h, out), l, h)
=============================================================================
