------------------------------ MODULE MC_Kleene ------------------------------
(* Registers over which all assignments run, and a stream to which values are *)
(* written and from which they are read back.                                 *)
EXTENDS Kleene, TLC
CONSTANT Depth
VARIABLES q, written, text, alpha, third
vars == <<q, written, text, alpha, third>>

Init == q = [i \in 1..3 |-> "F"] /\ written = <<>> /\ text = <<>> /\ alpha \in BOOLEAN /\ third \in {<<>>, <<109, 97>>, <<116, 114, 105>>}
Ops == {"copy", "bool", "third", "not", "&&", "||", "==", "!=", "swap", "if", "unless", "unknown"}
Step == \E f \in Ops, i, j, d \in 1..3, b \in 0..1 : q' = Assign(q, f, i, j, d, b) /\ UNCHANGED <<written, text, alpha, third>>
Write == \E i \in 1..3 : Len(written) < Depth /\ written' = Append(written, q[i]) /\ text' = text \o TextOf(q[i], alpha, third) \o <<32>> /\ UNCHANGED <<q, alpha, third>>
Next == Step \/ Write
Spec == Init /\ [][Next]_vars

TypeOK == \A i \in 1..3 : q[i] \in Tri
(* what was written is what is read, whatever the variable held before *)
RoundTrip == \A old \in Tri : LET r == Reads(text, 1, alpha, third, old, TRUE, Len(written)) IN \A k \in 1..Len(written) : r[k] = [ok |-> TRUE, v |-> written[k]]
OneMore == \A old \in Tri : LET r == Reads(text, 1, alpha, third, old, TRUE, Len(written) + 1) IN r[Len(written) + 1] = [ok |-> FALSE, v |-> IF written = <<>> THEN old ELSE written[Len(written)]]
(* algebra of Kleene's logic, on the values in the registers *)
X == q[1]
Y == q[2]
Z == q[3]
Laws ==
    /\ Not(Not(X)) = X
    /\ Not(And(X, Y)) = Or(Not(X), Not(Y)) /\ Not(Or(X, Y)) = And(Not(X), Not(Y))
    /\ And(X, Y) = And(Y, X) /\ Or(X, Y) = Or(Y, X) /\ Eq(X, Y) = Eq(Y, X)
    /\ And(X, And(Y, Z)) = And(And(X, Y), Z) /\ Or(X, Or(Y, Z)) = Or(Or(X, Y), Z)
    /\ And(X, Or(Y, Z)) = Or(And(X, Y), And(X, Z)) /\ And(X, Or(X, Y)) = X
    /\ Eq(X, Y) = Or(And(X, Y), And(Not(X), Not(Y)))
(* a known result stays when the unknown operands become known *)
Known(v, w) == v = "I" \/ v = w
Monotone == \A x, y \in Tri, f \in {"&&", "||", "==", "!="} : Known(X, x) /\ Known(Y, y) => Known(Bin(f, X, Y), Bin(f, x, y))
(* on known operands it is classical logic *)
Classical == "I" \notin {X, Y} => /\ And(X, Y) = Of(X = "T" /\ Y = "T") /\ Or(X, Y) = Of(X = "T" \/ Y = "T") /\ Not(X) = Of(X # "T")
Exclusive == Cardinality({k \in 1..3 : <<Cond(X), Cond(Not(X)), X = "I">>[k]}) = 1
=============================================================================
