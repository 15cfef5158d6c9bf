-------------------------------- MODULE Cursors --------------------------------
(* An iterator is a position in one fixed sequence: a cursor.  Its state is    *)
(* <<position, position of a second cursor>>; the operations move it.  Ends    *)
(* read as EndMark.                                                            *)
EXTENDS Integers, Sequences
EndMark == -1000
At(s, i) == IF i >= 0 /\ i < Len(s) THEN s[i + 1] ELSE EndMark
CursorInit == <<0, 0>>
(* one operation: k is its distance; the result says whether it is allowed,    *)
(* what it returns and the next state                                          *)
CursorOp(s, st, op, k) ==
    LET q == st[1] o == st[2] n == Len(s)
        R(ok, ret, q2, o2) == [ok |-> ok, ret |-> ret, st |-> <<q2, o2>>]
    IN CASE op = 0 -> R(q < n, At(s, q + 1), q + 1, o)            \* ++i, read through its result
         [] op = 1 -> R(q < n, At(s, q), q + 1, o)                \* i++ returns the old cursor
         [] op = 2 -> R(q < n, EndMark, q + 1, o)                 \* next(i)
         [] op = 3 -> R(TRUE, At(s, q), q, o)                     \* copy
         [] op = 4 -> R(TRUE, At(s, q), o, q)                     \* swap: the other now stands here
         [] op = 5 -> R(q < n, At(s, q), q, q)                    \* other = i
         [] op = 6 -> R(q > 0, At(s, q - 1), q - 1, o)            \* --i
         [] op = 7 -> R(q > 0, At(s, q), q - 1, o)                \* i--
         [] op = 8 -> R(q > 0, EndMark, q - 1, o)                 \* prev(i)
         [] op = 9 -> R(q + k >= 0 /\ q + k <= n, EndMark, q + k, o)
         [] op = 10 -> R(q + k >= 0 /\ q + k < n, At(s, q + k), q, o)
RECURSIVE WalkFrom(_, _, _, _)
WalkFrom(s, w, i, st) ==          \* rows <<op, k, returned value, value at the new position, distance from the start>>
    i > Len(w) \/ LET r == CursorOp(s, st, w[i][1], w[i][2]) IN
        /\ r.ok /\ w[i][3] = r.ret /\ w[i][4] = At(s, r.st[1]) /\ w[i][5] = r.st[1]
        /\ WalkFrom(s, w, i + 1, r.st)
WalkOk(s, w) == WalkFrom(s, w, 1, CursorInit)
(* all pairs of positions of a random-access range *)
PairRow(s, r) ==
    LET i == r[1] j == r[2] IN
    /\ r[3] = 63
    /\ r[4] = At(s, j) /\ r[5] = At(s, j) /\ r[6] = At(s, j)
    /\ r[7] = (IF i = j THEN 1 ELSE 2) + (IF i < j THEN 4 ELSE 0) + (IF i > j THEN 8 ELSE 0) + (IF i <= j THEN 16 ELSE 0) + (IF i >= j THEN 32 ELSE 0)
    /\ r[8] = j - i /\ r[9] = j - i
PairsOk(s, pm) ==
    /\ Len(pm) = (Len(s) + 1) * (Len(s) + 1)
    /\ \A m \in 1..Len(pm) : pm[m][1] = (m - 1) \div (Len(s) + 1) /\ pm[m][2] = (m - 1) % (Len(s) + 1) /\ PairRow(s, pm[m])
Backwards(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
(* everything observed of a range that denotes s *)
Observed(s, e) ==
    /\ e.f1 = s /\ e.f2 = s /\ e.f3 = s /\ e.d = Len(s)
    /\ (e.cat >= 2 => e.r1 = Backwards(s) /\ e.r2 = Backwards(s) /\ e.r3 = Backwards(s) /\ e.rb = <<1, 1, 1, 1, 1, Len(s)>>)
    /\ (e.cat >= 3 /\ Len(s) <= 9 => PairsOk(s, e.pm))
    /\ WalkOk(s, e.w)
===============================================================================
