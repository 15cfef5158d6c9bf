----------------------------- MODULE Valarrays ------------------------------
(* C18: a valarray is a sequence of numbers with element-wise arithmetic; a   *)
(* selection designates a sequence of its positions.                          *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

VAbs(x) == IF x < 0 THEN -x ELSE x
(* C++ division truncates towards zero *)
TDiv(x, y) == LET q == VAbs(x) \div VAbs(y) IN IF (x < 0) # (y < 0) THEN -q ELSE q
TMod(x, y) == x - y * TDiv(x, y)
VB(b) == IF b THEN 1 ELSE 0
Arith(f, x, y) ==
    CASE f = "+" -> x + y [] f = "-" -> x - y [] f = "*" -> x * y
      [] f = "/" -> TDiv(x, y) [] f = "%" -> TMod(x, y)
      [] f = "&" -> x & y [] f = "|" -> x | y [] f = "^" -> x ^^ y
      [] f = "<<" -> x * 2^y [] f = ">>" -> x \div 2^y
      [] f = "==" -> VB(x = y) [] f = "!=" -> VB(x # y) [] f = "<" -> VB(x < y) [] f = ">" -> VB(x > y)
      [] f = "<=" -> VB(x <= y) [] f = ">=" -> VB(x >= y)
      [] f = "&&" -> VB(x # 0 /\ y # 0) [] f = "||" -> VB(x # 0 \/ y # 0)
Unary(f, x, k) ==
    CASE f = "+" -> x [] f = "-" -> -x [] f = "~" -> -x - 1 [] f = "!" -> VB(x = 0)
      [] f = "twice" -> 2 * x [] f = "succ" -> x + 1 [] f = "sq" -> x * x [] f = "const" -> k
(* a one-element operand of the scalar forms stands for every position *)
Binary(f, m, a, b) ==
    IF m = "sv" THEN [i \in 1..Len(b) |-> Arith(f, a[1], b[i])]
    ELSE IF m = "vs" THEN [i \in 1..Len(a) |-> Arith(f, a[i], b[1])]
    ELSE [i \in 1..Len(a) |-> Arith(f, a[i], b[i])]
RECURSIVE VSum(_)
VSum(a) == IF a = << >> THEN 0 ELSE Head(a) + VSum(Tail(a))
VElems(a) == {a[i] : i \in 1..Len(a)}
IsMin(m, a) == m \in VElems(a) /\ \A x \in VElems(a) : m <= x
IsMax(m, a) == m \in VElems(a) /\ \A x \in VElems(a) : m >= x

(* shifting by n moves every element n places towards the front and fills with zeros; the cyclic shift re-enters them *)
Shift(a, n)  == [i \in 1..Len(a) |-> IF i + n \in 1..Len(a) THEN a[i + n] ELSE 0]
CShift(a, n) == [i \in 1..Len(a) |-> a[((i - 1 + n) % Len(a)) + 1]]
Const(k, n) == [i \in 1..n |-> k]
Rev(a) == [i \in 1..Len(a) |-> a[Len(a) + 1 - i]]

(* positions (from 0) that a selection designates, in its order *)
RECURSIVE GIdx(_, _, _)
GIdx(start, sizes, strides) ==
    IF sizes = << >> THEN <<start>>
    ELSE FlattenSeq([j \in 1..sizes[1] |-> GIdx(start + (j - 1) * strides[1], Tail(sizes), Tail(strides))])
MaskIdx(m) == SelectSeq([i \in 1..Len(m) |-> i - 1], LAMBDA i : m[i + 1] # 0)
Positions(k, st, sa, sb) ==
    CASE k \in {"slice", "gslice"} -> GIdx(st, sa, sb)
      [] k = "mask"     -> MaskIdx(sa)
      [] k = "indirect" -> sa
Select(a, pos) == [i \in 1..Len(pos) |-> a[pos[i] + 1]]
(* write f(old, b[i]) at the i-th designated position, leaving all others *)
RECURSIVE Scatter(_, _, _, _)
Scatter(a, pos, f, b) ==
    IF pos = << >> THEN a
    ELSE Scatter([a EXCEPT ![pos[1] + 1] = IF f = "=" THEN b[1] ELSE Arith(f, @, b[1])], Tail(pos), f, Tail(b))

OpOf(f) == CASE f = "=" -> "=" [] f = "+=" -> "+" [] f = "-=" -> "-" [] f = "*=" -> "*" [] f = "/=" -> "/" [] f = "%=" -> "%"
             [] f = "&=" -> "&" [] f = "|=" -> "|" [] f = "^=" -> "^" [] f = "<<=" -> "<<" [] f = ">>=" -> ">>"

(* histories over two valarrays *)
VInit == [x |-> << >>, y |-> << >>]
NxtV(st, e) ==
    CASE e.o = "init"     -> VInit
      [] e.o = "setx"     -> [st EXCEPT !.x = e.b]
      [] e.o \in {"same", "toolong"} -> st
      [] e.o = "swap"     -> [x |-> st.y, y |-> st.x]
      [] e.o = "copyxy"   -> [st EXCEPT !.x = st.y]
      [] e.o = "fillx"    -> [st EXCEPT !.x = Const(e.v, Len(st.x))]
      [] e.o = "resize"   -> [st EXCEPT !.x = Const(e.v, e.n)]
      [] e.o = "set1"     -> [st EXCEPT !.x = [@ EXCEPT ![e.i + 1] = e.v]]
      [] e.o = "abs"      -> [st EXCEPT !.x = [i \in 1..Len(st.x) |-> VAbs(st.x[i])]]
      [] e.o = "cs"       -> [st EXCEPT !.x = [i \in 1..Len(st.x) |-> Arith(OpOf(e.f), st.x[i], e.v)]]
      [] e.o = "vset"     -> LET pos == Positions(e.k, e.st, e.sa, e.sb)
                             IN [st EXCEPT !.x = Scatter(st.x, pos, IF e.f = "fill" THEN "=" ELSE OpOf(e.f), IF e.f = "fill" THEN Const(e.v, Len(pos)) ELSE e.b)]
      [] e.o = "vv"       -> [st EXCEPT !.x = Scatter(st.x, Positions(e.k, e.st, e.sa, e.sb), "=", Select(st.y, Positions(e.k2, e.st2, e.sa2, e.sb2)))]
      [] e.o = "fromview" -> [st EXCEPT !.x = Select(st.y, Positions(e.k, e.st, e.sa, e.sb))]
      [] e.o = "shiftx"   -> [st EXCEPT !.x = Shift(st.x, e.n)]
      [] e.o = "cshiftx"  -> [st EXCEPT !.x = IF st.x = << >> THEN << >> ELSE CShift(st.x, e.n)]
===============================================================================
