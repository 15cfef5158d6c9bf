----------------------------- MODULE FunctionObjects -----------------------------
(* Function objects: what an operator object computes, and what a binder
   does with the arguments of a call.

   A bound argument is a record [k, x]:
     "v"    the stored value x
     "ref"  a reference to an object whose value is x ("cref": to const)
     "p"    the x-th argument of the call
     "pos"  the next argument of the call, counting the "pos" of this binder
     "tail" all arguments of the call after the x-th
     "bind" a nested binder with target x and bound arguments b: it is called
            with the arguments of the outer call and its result is passed on *)
EXTENDS Integers, Sequences, SequencesExt

Bool(b) == IF b THEN 1 ELSE 0
Mag(x) == IF x < 0 THEN -x ELSE x
Div0(a, b) == LET q == Mag(a) \div Mag(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q      \* towards zero
Mod0(a, b) == a - b * Div0(a, b)
RECURSIVE BitOp(_, _, _, _)
BitOp(f, a, b, n) ==    \* on the two's complement of width n
    IF n = 0 THEN 0
    ELSE LET p == a % 2
             q == b % 2
             r == CASE f = "and" -> p * q [] f = "or" -> p + q - p * q [] OTHER -> (p + q) % 2
         IN r + 2 * BitOp(f, a \div 2, b \div 2, n - 1)
ToSigned(x, n) == IF x >= 2 ^ (n - 1) THEN x - 2 ^ n ELSE x
Bits(f, a, b) == ToSigned(BitOp(f, a, b, 20), 20)

Operator(f, a, b) ==
    CASE f = "plus" -> a + b
      [] f = "minus" -> a - b
      [] f = "multiplies" -> a * b
      [] f = "divides" -> Div0(a, b)
      [] f = "modulus" -> Mod0(a, b)
      [] f = "negate" -> -a
      [] f = "posite" -> a
      [] f = "assign" -> b
      [] f = "equal_to" -> Bool(a = b)
      [] f = "not_equal_to" -> Bool(a # b)
      [] f = "less" -> Bool(a < b)
      [] f = "greater" -> Bool(a > b)
      [] f = "less_equal" -> Bool(a <= b)
      [] f = "greater_equal" -> Bool(a >= b)
      [] f = "logical_and" -> Bool(a # 0 /\ b # 0)
      [] f = "logical_or" -> Bool(a # 0 \/ b # 0)
      [] f = "logical_not" -> Bool(a = 0)
      [] f = "bit_and" -> Bits("and", a, b)
      [] f = "bit_or" -> Bits("or", a, b)
      [] f = "bit_xor" -> Bits("xor", a, b)
      [] f = "bit_not" -> -1 - a
      [] f = "shift_left" -> a * 2 ^ b
      [] f = "shift_right" -> a \div 2 ^ b
Relational == {"equal_to", "not_equal_to", "less", "greater", "less_equal", "greater_equal", "logical_and", "logical_or", "logical_not"}
\* a typed operator converts the result back to its type
Wrap(t, x) ==
    CASE t = "uchar" -> x % 256
      [] t = "schar" -> ToSigned(x % 256, 8)
      [] OTHER -> x
Typed(f, t, a, b) == IF f \in Relational THEN Operator(f, a, b) ELSE Wrap(t, Operator(f, a, b))

(* ---- binders ---- *)
\* the result a target gives for the values it is called with (any injective-looking function would do)
Code(id, vs) == FoldLeft(LAMBDA h, v : (IF 31 * h + v >= 0 THEN (31 * h + v) % 10007 ELSE -((-(31 * h + v)) % 10007)), id, vs)
Places(bs, i) == Len(SelectSeq(SubSeq(bs, 1, i), LAMBDA b : b.k = "pos"))
Numbered(bs) == [i \in 1..Len(bs) |-> IF bs[i].k = "pos" THEN [k |-> "p", x |-> Places(bs, i)] ELSE bs[i]]
\* the arguments of a call are records [v, cat, who]: value, category ("l" lvalue, "c" lvalue of a const, "r" rvalue), identity (0: none)
RECURSIVE One(_, _, _), Passed(_, _, _), Result(_, _, _, _), Calls(_, _, _, _)
One(b, cst, args) ==
    CASE b.k = "v"    -> << [v |-> b.x, cat |-> IF cst THEN "c" ELSE "l", who |-> 0] >>
      [] b.k = "ref"  -> << [v |-> b.x, cat |-> "l", who |-> 10] >>
      [] b.k = "cref" -> << [v |-> b.x, cat |-> "c", who |-> 11] >>
      [] b.k = "p"    -> << args[b.x] >>
      [] b.k = "tail" -> SubSeq(args, b.x + 1, Len(args))
      [] b.k = "bind" -> << [v |-> Result(b.x, b.b, cst \/ b.c, args), cat |-> "r", who |-> 0] >>
Passed(bs, cst, args) == LET n == Numbered(bs) IN FoldLeft(LAMBDA acc, b : acc \o One(b, cst, args), << >>, n)
Values(as) == [i \in 1..Len(as) |-> as[i].v]
Result(id, bs, cst, args) == Code(id, Values(Passed(bs, cst, args)))
\* every call of a target that one call of the binder causes: each nested binder once per occurrence, then the target
Calls(id, bs, cst, args) ==
    FoldLeft(LAMBDA acc, b : IF b.k = "bind" THEN acc \o Calls(b.x, b.b, cst \/ b.c, args) ELSE acc, << >>, bs)
        \o << [id |-> id, a |-> Passed(bs, cst, args)] >>
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Len(SelectSeq(p, LAMBDA x : x = p[i])) = Len(SelectSeq(q, LAMBDA x : x = p[i]))
=============================================================================
