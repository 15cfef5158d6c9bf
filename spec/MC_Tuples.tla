------------------------------ MODULE MC_Tuples ------------------------------
(* Algebra of the tuple operations over all sequences up to length N, and     *)
(* every history of assignments and swaps over {0,1}: nothing but the target  *)
(* of an operation changes, and swaps are involutions.                        *)
EXTENDS Tuples
CONSTANT N, D
VARIABLES st, a, b, d
Seqs(k) == UNION {[1..n -> {0, 1}] : n \in 0..k}
Init == st = FreshT /\ a \in Seqs(N) /\ b \in Seqs(N) /\ d = 0
Ops == {"setx", "copyx", "xfromu", "xfromp", "xfromq", "swapx", "x0", "x1", "setu", "ufromq", "setp", "copyp", "pfromq", "pfromx", "pfromu", "swapp", "setq", "zero"}
Hist == \E op \in Ops, i \in 1..2, v, w \in {0, 1} : st' = NxtT(st, [o |-> op, i |-> i, v |-> v, w |-> w])
Next == d < D /\ a = << >> /\ b = << >> /\ Hist /\ d' = d + 1 /\ UNCHANGED <<a, b>>
T(o, k) == TupleOp(o, a, b, k)
Algebra ==
    /\ Len(T("append_back", 0)) = Len(a) + Len(b) /\ T("append_front", 0) = TupleOp("append_back", b, a, 0)
    /\ \A k \in 0..N : Len(Flex(a, k)) = k /\ Overlay(Flex(b, k), a) = IF Len(a) >= k THEN Flex(a, k) ELSE Flex(a, Len(a)) \o SubSeq(Flex(b, k), Len(a) + 1, k)
    /\ a # << >> => TupleOp("push_back", T("pop_back", 0), <<a[Len(a)]>>, 0) = a /\ TupleOp("push_front", T("pop_front", 0), <<a[1]>>, 0) = a
    /\ Lex(a, b) = -Lex(b, a) /\ (Lex(a, b) = 0 <=> a = b)
    /\ (Len(a) = Len(b) /\ a # << >> => Lex(a, b) = IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1) ELSE Lex(Tail(a), Tail(b)))
Frames == \A op \in Ops, i \in 1..2 : LET n == NxtT(st, [o |-> op, i |-> i, v |-> 1, w |-> 0]) IN
    /\ (op \in {"setx", "copyx", "xfromu", "xfromp", "xfromq", "x0", "x1"} => n.x[3 - i] = st.x[3 - i] /\ n.u = st.u /\ n.p = st.p /\ n.q = st.q)
    /\ (op \in {"setp", "copyp", "pfromq", "pfromx", "pfromu"} => n.p[3 - i] = st.p[3 - i] /\ n.x = st.x /\ n.u = st.u /\ n.q = st.q)
    /\ (op \in {"swapx", "swapp"} => NxtT(n, [o |-> op, i |-> i, v |-> 0, w |-> 0]) = st)
    /\ \A k \in 1..2 : Len(n.x[k]) = 2 /\ Len(n.p[k]) = 2
==============================================================================
