------------------------------ MODULE MC_Windows ------------------------------
(* The window machine explored exhaustively on a small array: windows stay    *)
(* inside their buffers; an owning window never disturbs the array; the       *)
(* operations through the reference window change the array only inside it;   *)
(* functional algorithms never change the array at all.                       *)
EXTENDS WindowOps, TLC
CONSTANTS N, V
VARIABLE z
Arr == [1..N -> 0..V]
Init == \E a \in Arr : z = WS(a, 0, N, a, 0, N)
(* what operation e may change, from q to r *)
Confined(q, r, e) ==
    /\ (e.o = "alg" \/ e.t = "C") => r.a = q.a /\ r.rl = q.rl /\ r.rh = q.rh
    /\ e.t = "R" /\ e.o # "alg" => r.cw = q.cw
    /\ e.o = "alg" => /\ Outside(Buf(q, e.t), r.cw, Lo(q, e.t), Hi(q, e.t))
                      /\ r.cl = Lo(q, e.t) /\ r.ch <= Hi(q, e.t)
    /\ e.o = "set" => Outside(Buf(q, e.t), Buf(r, e.t), Lo(q, e.t), Hi(q, e.t))
Go(e) == z' = Step(z, e) /\ Assert(Confined(z, z', e), <<z, e>>)
L(t) == Lo(z, t)
H(t) == Hi(z, t)
Next == \E t \in {"R", "C"} :
    \/ \E i \in 0..N - 1, v \in 0..V : i < H(t) - L(t) /\ Go([o |-> "set", t |-> t, i |-> i, v |-> v])
    \/ \E v \in 0..V : H(t) < N /\ Go([o |-> "push_back", t |-> t, v |-> v])
    \/ \E v \in 0..V : L(t) > 0 /\ Go([o |-> "push_front", t |-> t, v |-> v])
    \/ \E o \in {"pop_back", "pop_front", "drop_back", "drop_front"} : L(t) < H(t) /\ Go([o |-> o, t |-> t])
    \/ \E i, j \in 0..N : i <= j /\ j <= H(t) - L(t) /\ Go([o |-> "sub", t |-> t, d |-> t, i |-> i, j |-> j])
    \/ \E i, j \in 0..N : i <= j /\ Go([o |-> "window", t |-> t, d |-> t, i |-> i, j |-> j])
    \/ \E f \in {"fixed", "fit"}, v \in 0..V :
          \/ Go([o |-> "alg", g |-> "remove", f |-> f, t |-> t, v |-> v])
          \/ Go([o |-> "alg", g |-> "reverse", f |-> f, t |-> t])
          \/ Go([o |-> "alg", g |-> "unique", f |-> f, t |-> t, p |-> "eq"])
          \/ Go([o |-> "alg", g |-> "copy", f |-> f, t |-> t, a |-> <<v, v>>])
TypeOK == 0 <= z.rl /\ z.rl <= z.rh /\ z.rh <= N /\ 0 <= z.cl /\ z.cl <= z.ch /\ z.ch <= N /\ Len(z.a) = N /\ Len(z.cw) = N
==============================================================================
