------------------------------- MODULE CTypes -------------------------------
(* The character classes of the C locale, from the definition in ISO C.       *)
EXTENDS Integers, Sequences, FiniteSets
Upper == 65..90
Lower == 97..122
Digit == 48..57
Space == {9, 10, 11, 12, 13, 32}
Graph == 33..126
Class(n) == CASE n = "upper" -> Upper [] n = "lower" -> Lower [] n = "digit" -> Digit
              [] n = "alpha" -> Upper \cup Lower [] n = "alnum" -> Upper \cup Lower \cup Digit
              [] n = "xdigit" -> Digit \cup 65..70 \cup 97..102
              [] n = "space" -> Space [] n = "blank" -> {9, 32} [] n = "cntrl" -> (0..31) \cup {127}
              [] n = "graph" -> Graph [] n = "print" -> Graph \cup {32}
              [] n = "punct" -> Graph \ (Upper \cup Lower \cup Digit)
ClassNames == {"alnum", "alpha", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "xdigit"}
Classes(x) == {n \in ClassNames : x \in Class(n)}
ToLower(x) == IF x \in Upper THEN x + 32 ELSE x
ToUpper(x) == IF x \in Lower THEN x - 32 ELSE x
(* value of a digit in a base, -1 if it is not one *)
Value36(x) == IF x \in Digit THEN x - 48 ELSE IF x \in Upper THEN x - 55 ELSE IF x \in Lower THEN x - 87 ELSE 36
Value(x, b) == IF Value36(x) < b THEN Value36(x) ELSE -1
DigitChar(v) == IF v < 10 THEN 48 + v ELSE 87 + v
=============================================================================
