---------------------------- MODULE MC_Optionals ----------------------------
(* Every history of operations on three optionals over two values: the state *)
(* stays empty-or-one, the order is total with empty least.                   *)
EXTENDS Optionals
CONSTANT Ref
VARIABLE st
Val == {1, 2}
Init == st = [ref |-> Ref, x |-> <<<< >>, << >>, << >>>>, u |-> IF Ref THEN <<1, 2, 1>> ELSE << >>]
Next == \E i, j \in 1..3, v \in Val, k \in {0, 1}, op \in {"none", "set", "setif", "copy", "swap"} \cup (IF Ref THEN {"write"} ELSE {"setu", "noneu", "fromu"}) :
          /\ (op = "write" => st.x[i] # << >>)
          /\ st' = NxtOpt(st, [o |-> op, i |-> i, j |-> j, v |-> v, k |-> k])
Inv == /\ AtMostOne(st)
       /\ \A i, j \in 1..3 : LET a == Deref(st, st.x[i])  b == Deref(st, st.x[j]) IN
            /\ CmpOpt(a, b) = -CmpOpt(b, a) /\ (CmpOpt(a, b) = 0 <=> a = b) /\ (a = << >> => CmpOpt(a, b) <= 0)
            /\ \A k \in 1..3 : LET d == Deref(st, st.x[k]) IN CmpOpt(a, b) <= 0 /\ CmpOpt(b, d) <= 0 => CmpOpt(a, d) <= 0
=============================================================================
