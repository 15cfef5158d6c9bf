------------------------------ MODULE Transforms ------------------------------
(* The output sequence of each copying/transforming algorithm, as a function *)
(* of the input sequence e.a and the event's parameters.                      *)
EXTENDS Sorting

RECURSIVE Uniq(_, _)
Uniq(p, a) == IF Len(a) < 2 THEN a
              ELSE IF BPred(p, a[1], a[2]) THEN Uniq(p, <<a[1]>> \o SubSeq(a, 3, Len(a))) ELSE <<a[1]>> \o Uniq(p, Tail(a))
WhileLen(a, P(_)) == FirstIn(1, Len(a), Len(a) + 1, LAMBDA i : ~P(a[i])) - 1
Rotated(a, m) == Drop(a, m) \o Prefix(a, m)
Swapped(a, i, j) == [k \in 1..Len(a) |-> IF k = i + 1 THEN a[j + 1] ELSE IF k = j + 1 THEN a[i + 1] ELSE a[k]]
Clamped(c, x, lo, hi) == IF Less(c, x, lo) THEN lo ELSE IF Less(c, hi, x) THEN hi ELSE x
Iota(v, n) == [i \in 1..n |-> v + i - 1]
Un(op, x) == CASE op = "neg" -> -x [] op = "x3" -> 3 * x + 1
Bin(op, x, y) == CASE op = "sub" -> x - y [] op = "mix" -> 10 * x + y
(* a recurrence of order Len(inits): next = sum of (position * value) modulo 97 *)
RECURSIVE Weighted(_, _)
Weighted(a, i) == IF i > Len(a) THEN 0 ELSE i * a[i] + Weighted(a, i + 1)
RECURSIVE Recur(_, _, _)
Recur(seq, k, n) == IF Len(seq) >= n THEN Prefix(seq, n)
                    ELSE Recur(Append(seq, (Weighted(SubSeq(seq, Len(seq) - k + 1, Len(seq)), 1) + 1) % 97), k, n)

Out(e, a) ==
    LET U(x) == UPred(e.u, x)
        NU(x) == ~U(x)
    IN
    CASE e.o \in {"copy", "move"} -> a
      [] e.o = "copy_if" -> Keep(a, U)
      [] e.o = "copy_n" -> Prefix(a, e.n)
      [] e.o = "copy_while" -> Prefix(a, WhileLen(a, U))
      [] e.o = "copy_until" -> Prefix(a, WhileLen(a, NU))
      [] e.o = "transform" -> [i \in 1..Len(a) |-> Un(e.op, a[i])]
      [] e.o = "transform2" -> [i \in 1..Len(a) |-> Bin(e.op, a[i], e.b[i])]
      [] e.o = "replace" -> [i \in 1..Len(a) |-> IF a[i] = e.v THEN e.n ELSE a[i]]
      [] e.o = "replace_if" -> [i \in 1..Len(a) |-> IF U(a[i]) THEN e.n ELSE a[i]]
      [] e.o = "remove" -> SelectSeq(a, LAMBDA x : x # e.v)
      [] e.o = "remove_if" -> Keep(a, NU)
      [] e.o = "unique" -> Uniq(e.p, a)
      [] e.o = "reverse" -> Reverse(a)
      [] e.o = "rotate" -> Rotated(a, e.m)
      [] e.o = "swap_element" -> Swapped(a, e.i, e.j)
      [] e.o = "clamp_range" -> [i \in 1..Len(a) |-> Clamped(e.c, a[i], e.lo, e.hi)]
      [] e.o = "fill" -> Fill(Len(a), e.v)
      [] e.o = "fill_n" -> Fill(e.n, e.v)
      [] e.o \in {"generate", "unfold"} -> Iota(e.v, Len(a))
      [] e.o \in {"generate_n", "unfold_n"} -> Iota(e.v, e.n)
      [] e.o = "recurrence" -> Recur(e.b, Len(e.b), Len(a))
      [] e.o = "recurrence_n" -> Recur(e.b, Len(e.b), e.n)
=============================================================================
