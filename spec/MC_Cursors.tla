------------------------------ MODULE MC_Cursors ------------------------------
(* A cursor that really walks an adapted range one base element at a time -    *)
(* the way the adaptors are implemented - refines the cursor of the            *)
(* specification, and the denotations obey the sequence laws.                  *)
EXTENDS Ranges, Cursors
CONSTANTS MaxLen, MaxVal
VARIABLES a, k, q, pos, abs
(* q: position in the base sequence; abs: the specification's cursor *)
KindsBi == {"filter", "transform", "remove", "reverse"}
Seqs(n) == UNION {[1..m -> 0..MaxVal] : m \in 0..n}
X == 1
Keeps(v) == IF k = "filter" THEN Odd(v) ELSE IF k = "remove" THEN v # X ELSE TRUE
Base == IF k = "reverse" THEN Reverse(a) ELSE a
FirstKept(i) == LET P(j) == j > Len(Base) \/ Keeps(Base[j]) IN FirstIn(i, Len(Base) + 1, Len(Base) + 1, P)
LastKept(i) == LET P(j) == Keeps(Base[j]) IN LastIn(1, i, 0, P)
Init == a \in Seqs(MaxLen) /\ k \in KindsBi /\ q = FirstKept(1) /\ pos = 0 /\ abs = CursorInit
Fwd == q <= Len(Base) /\ q' = FirstKept(q + 1) /\ pos' = pos + 1 /\ abs' = CursorOp(Denote(k, a, << >>, X, 0), abs, 0, 0).st
Bwd == LastKept(q - 1) > 0 /\ q' = LastKept(q - 1) /\ pos' = pos - 1 /\ abs' = CursorOp(Denote(k, a, << >>, X, 0), abs, 6, 0).st
Next == UNCHANGED <<a, k>> /\ (Fwd \/ Bwd)
Spec == Init /\ [][Next]_<<a, k, q, pos, abs>>
Seen == IF q > Len(Base) THEN EndMark ELSE IF k = "transform" THEN 2 * Base[q] + 1 ELSE Base[q]
Refines == /\ abs[1] = pos
           /\ Seen = At(Denote(k, a, << >>, X, 0), pos)
           /\ (ENABLED Fwd <=> CursorOp(Denote(k, a, << >>, X, 0), abs, 0, 0).ok)
           /\ (ENABLED Bwd <=> CursorOp(Denote(k, a, << >>, X, 0), abs, 6, 0).ok)
D(kind) == Denote(kind, a, << >>, X, 0)
Laws ==
    /\ Len(D("filter")) + Len(D("remove_if")) = Len(a)
    /\ D("revfilter") = Reverse(D("filter")) /\ D("revtrans") = Denote("transform", Reverse(a), << >>, 0, 0)
    /\ Denote("unique", D("unique"), << >>, 0, 0) = D("unique")
    /\ (a # << >> => D("unique")[1] = a[1]) /\ Len(D("unique")) <= Len(a)
    /\ D("while") = SubSeq(a, 1, Len(D("while"))) /\ (Len(D("while")) < Len(a) => ~Odd(a[Len(D("while")) + 1]))
    /\ \A w \in 1..3 : \A v \in 1..3 : Denote("step", Denote("step", a, << >>, w, 0), << >>, v, 0) = Denote("step", a, << >>, v * w, 0)
    /\ Denote("joint", a, << >>, 0, 0) = a
    /\ \A i \in 0..Len(a) : Denote("insert", a, <<7>>, i, 0) = Denote("joint", SubSeq(a, 1, i), <<7>> \o SubSeq(a, i + 1, Len(a)), 0, 0)
    /\ Denote("step", Interleave(a, Reverse(a)), << >>, 2, 0) = a
===============================================================================
