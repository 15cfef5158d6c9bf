----------------------------- MODULE MC_CTypes ------------------------------
EXTENDS CTypes
VARIABLE x
Init == x \in -130..300
Next == UNCHANGED x
(* the classes partition and nest as ISO C requires *)
Partition == /\ (x \in 0..127) = ("print" \in Classes(x) \/ "cntrl" \in Classes(x))
             /\ ~({"print", "cntrl"} \subseteq Classes(x))
             /\ ("print" \in Classes(x)) = (x = 32 \/ "graph" \in Classes(x))
             /\ ("graph" \in Classes(x)) = ("alnum" \in Classes(x) \/ "punct" \in Classes(x))
             /\ ~({"alnum", "punct"} \subseteq Classes(x))
             /\ ("alpha" \in Classes(x)) = (Cardinality({"upper", "lower"} \cap Classes(x)) = 1)
             /\ ("blank" \in Classes(x) => "space" \in Classes(x)) /\ ("digit" \in Classes(x) => "xdigit" \in Classes(x))
Case == /\ ToLower(ToUpper(x)) = ToLower(x) /\ ToUpper(ToLower(x)) = ToUpper(x)
        /\ (ToLower(x) # x) = ("upper" \in Classes(x)) /\ (ToUpper(x) # x) = ("lower" \in Classes(x))
        /\ (ToLower(x) # x => ToUpper(ToLower(x)) = x)
Digits == \A b \in 2..36 : Value(x, b) # -1 => (Value(x, b) \in 0..(b - 1) /\ DigitChar(Value(x, b)) = ToLower(x))
=============================================================================
