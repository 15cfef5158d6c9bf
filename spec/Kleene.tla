------------------------------- MODULE Kleene -------------------------------
(* Three-valued logic: Kleene's strong tables over {T, F, I}, registers that  *)
(* are assigned, and the text form read from a stream of characters.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Tri == {"T", "F", "I"}
Rank(x) == CASE x = "F" -> 0 [] x = "I" -> 1 [] x = "T" -> 2      \* truth order
OfRank(n) == CASE n = 0 -> "F" [] n = 1 -> "I" [] n = 2 -> "T"
Not(x) == OfRank(2 - Rank(x))
And(x, y) == IF Rank(x) <= Rank(y) THEN x ELSE y
Or(x, y) == IF Rank(x) >= Rank(y) THEN x ELSE y
Of(b) == IF b THEN "T" ELSE "F"
Eq(x, y) == IF "I" \in {x, y} THEN "I" ELSE Of(x = y)
Ne(x, y) == Not(Eq(x, y))
Cond(x) == x = "T"
Bin(f, x, y) == CASE f = "&&" -> And(x, y) [] f = "||" -> Or(x, y) [] f = "==" -> Eq(x, y) [] f = "!=" -> Ne(x, y)

(* one assignment to register d of the three registers q *)
Assign(q, f, i, j, d, b) ==
    CASE f = "copy" -> [q EXCEPT ![d] = q[i]]
      [] f = "bool" -> [q EXCEPT ![d] = Of(b = 1)]
      [] f = "third" -> [q EXCEPT ![d] = "I"]
      [] f = "not" -> [q EXCEPT ![d] = Not(q[i])]
      [] f \in {"&&", "||", "==", "!="} -> [q EXCEPT ![d] = Bin(f, q[i], q[j])]
      [] f = "swap" -> [q EXCEPT ![d] = q[i], ![i] = q[d]]
      [] f = "if" -> IF Cond(q[i]) THEN [q EXCEPT ![d] = q[j]] ELSE q
      [] f = "unless" -> IF Cond(Not(q[i])) THEN [q EXCEPT ![d] = q[j]] ELSE q
      [] f = "unknown" -> IF q[i] = "I" THEN [q EXCEPT ![d] = q[j]] ELSE q

(* ---- text ---- *)
TrueName == <<116, 114, 117, 101>>
FalseName == <<102, 97, 108, 115, 101>>
DefaultThird == <<105, 110, 100, 101, 116, 101, 114, 109, 105, 110, 97, 116, 101>>
NameOf(x, third) == CASE x = "T" -> TrueName [] x = "F" -> FalseName [] x = "I" -> (IF third = <<>> THEN DefaultThird ELSE third)
DigitOf(x) == CASE x = "F" -> <<48>> [] x = "T" -> <<49>> [] x = "I" -> <<50>>
TextOf(x, alpha, third) == IF alpha THEN NameOf(x, third) ELSE DigitOf(x)

Blank(ch) == ch \in {32, 9, 10, 11, 12, 13}
RECURSIVE SkipBlanks(_, _)
SkipBlanks(t, k) == IF k <= Len(t) /\ Blank(t[k]) THEN SkipBlanks(t, k + 1) ELSE k
(* longest n such that t[k..k+n-1] is a prefix of the name w *)
RECURSIVE Agree(_, _, _, _)
Agree(t, k, w, n) == IF n < Len(w) /\ k + n <= Len(t) /\ t[k + n] = w[n + 1] THEN Agree(t, k, w, n + 1) ELSE n
RECURSIVE Digits(_, _)
Digits(t, k) == IF k <= Len(t) /\ t[k] \in 48..57 THEN Digits(t, k + 1) ELSE k
RECURSIVE Value(_, _, _, _)
Value(t, k, e, v) == IF k >= e THEN v ELSE Value(t, k + 1, e, IF v > 100 THEN v ELSE 10 * v + t[k] - 48)

(* Reading one value at position k of text t: [ok, v, k]; v is the old value on failure. *)
(* The three names must not be prefixes of one another.                                  *)
Read(t, k, alpha, third, old) ==
    LET s == SkipBlanks(t, k) IN
    IF alpha THEN
        LET hit == {x \in Tri : Agree(t, s, NameOf(x, third), 0) = Len(NameOf(x, third))} IN
        IF s > Len(t) \/ hit = {} THEN [ok |-> FALSE, v |-> old, k |-> k]
        ELSE LET x == CHOOSE y \in hit : TRUE IN [ok |-> TRUE, v |-> x, k |-> s + Len(NameOf(x, third))]
    ELSE
        LET sign == s <= Len(t) /\ t[s] \in {43, 45}
            b == IF sign THEN s + 1 ELSE s
            e == Digits(t, b)
            n == Value(t, b, e, 0)
        IN IF e = b \/ n > 2 \/ (sign /\ t[s] = 45 /\ n # 0) THEN [ok |-> FALSE, v |-> old, k |-> k]
           ELSE [ok |-> TRUE, v |-> (CASE n = 0 -> "F" [] n = 1 -> "T" [] n = 2 -> "I"), k |-> e]
(* n reads in a row from a stream; once failed, it stays failed *)
RECURSIVE Reads(_, _, _, _, _, _, _)
Reads(t, k, alpha, third, old, ok, n) ==
    IF n = 0 THEN <<>>
    ELSE IF ~ok THEN <<[ok |-> FALSE, v |-> old]>> \o Reads(t, k, alpha, third, old, FALSE, n - 1)
    ELSE LET r == Read(t, k, alpha, third, old) IN <<[ok |-> r.ok, v |-> r.v]>> \o Reads(t, r.k, alpha, third, r.v, r.ok, n - 1)
=============================================================================
