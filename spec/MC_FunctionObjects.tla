------------------------- MODULE MC_FunctionObjects -------------------------
(* Laws of operators over small integers, and of binders over all shapes of up to three bound arguments. *)
EXTENDS FunctionObjects
CONSTANTS M, K
VARIABLES a, b, bs
Bound == {[k |-> "v", x |-> 5], [k |-> "ref", x |-> 6], [k |-> "pos", x |-> 0], [k |-> "tail", x |-> 0], [k |-> "tail", x |-> 1],
          [k |-> "bind", c |-> FALSE, x |-> 2, b |-> << [k |-> "p", x |-> 2], [k |-> "v", x |-> 7] >>]} \cup {[k |-> "p", x |-> i] : i \in 1..3}
Shapes == UNION {[1..n -> Bound] : n \in 0..K}
Init == (a \in -M..M /\ b \in -M..M /\ bs = << >>) \/ (a = 1 /\ b = 2 /\ bs \in Shapes)
Next == UNCHANGED <<a, b, bs>>
O(f, x, y) == Operator(f, x, y)
OperatorLaw ==
    /\ (b # 0 => O("plus", O("multiplies", O("divides", a, b), b), O("modulus", a, b)) = a /\ Mag(Mod0(a, b)) < Mag(b) /\ (Mod0(a, b) = 0 \/ (Mod0(a, b) < 0) = (a < 0)))
    /\ O("bit_and", a, b) + O("bit_or", a, b) = a + b /\ O("bit_xor", a, b) = O("bit_or", a, b) - O("bit_and", a, b)
    /\ O("bit_not", O("bit_and", a, b), 0) = O("bit_or", O("bit_not", a, 0), O("bit_not", b, 0))
    /\ O("less", a, b) + O("equal_to", a, b) + O("greater", a, b) = 1 /\ O("less_equal", a, b) = 1 - O("greater", a, b)
    /\ O("logical_not", O("logical_and", a, b), 0) = O("logical_or", O("logical_not", a, 0), O("logical_not", b, 0))
    /\ (b >= 0 => O("shift_right", O("shift_left", a, b), b) = a)
    /\ O("minus", a, b) = O("plus", a, O("negate", b, 0))
Args == << [v |-> 1, cat |-> "l", who |-> 1], [v |-> 2, cat |-> "r", who |-> 0], [v |-> 3, cat |-> "c", who |-> 3] >>
BindLaw ==
    LET ps == Passed(bs, FALSE, Args)
        perm(q) == Passed(<< [k |-> "p", x |-> q[1]], [k |-> "p", x |-> q[2]], [k |-> "p", x |-> q[3]] >>, FALSE, Args)
        log == Calls(1, bs, FALSE, Args)
        nested == Len(SelectSeq(bs, LAMBDA z : z.k = "bind"))
    IN /\ Passed(<< [k |-> "tail", x |-> 0] >>, TRUE, Args) = Args
       /\ perm(<<1, 2, 3>>) = Args /\ perm(<<3, 1, 2>>) = << Args[3], Args[1], Args[2] >>
       \* the target is called last and once; every nested binder once for each occurrence; nothing else is called
       /\ Len(log) = nested + 1 /\ log[Len(log)] = [id |-> 1, a |-> ps] /\ \A i \in 1..nested : log[i].id = 2
       \* concatenating bound arguments concatenates what is passed, when no placeholder counts
       /\ ((\A i \in 1..Len(bs) : bs[i].k # "pos") => Passed(bs \o bs, FALSE, Args) = ps \o ps)
       \* constness of the binder changes categories of stored values only
       /\ Values(Passed(bs, TRUE, Args)) = Values(ps)
Law == OperatorLaw /\ (Len(SelectSeq(bs, LAMBDA z : z.k = "pos")) <= 3 => BindLaw)
=============================================================================
