------------------------------ MODULE CStrings ------------------------------
(* C14: the C string functions.  A string argument is given by its characters *)
(* (no terminator); results are offsets, -1 for null.  A buffer is a sequence *)
(* of cells; offsets into it count from 0; the terminator is the character 0. *)
EXTENDS Strings

Span(x, t) == LET S == {i \in 0..Len(x) - 1 : x[i + 1] \notin Chars(t)} IN IF S = {} THEN Len(x) ELSE LeastOr(S)
CSpan(x, t) == LET S == {i \in 0..Len(x) - 1 : x[i + 1] \in Chars(t)} IN IF S = {} THEN Len(x) ELSE LeastOr(S)
PBrk(x, t) == IF CSpan(x, t) = Len(x) THEN -1 ELSE CSpan(x, t)
StrStr(x, t) == Find(x, t, 0)
Chr(x, ch) == Find(Append(x, 0), <<ch>>, 0)
RChr(x, ch) == RFind(Append(x, 0), <<ch>>, 1000)
NCmp(x, y, n) == Cmp(Sub(x, 0, n), Sub(y, 0, n))
MChr(x, ch, n) == Find(Sub(x, 0, n), <<ch>>, 0)

(* buffers *)
Write(b, d, w) == [i \in 1..Len(b) |-> IF i > d /\ i <= d + Len(w) THEN w[i - d] ELSE b[i]]
Cells(b, q, n) == SubSeq(b, q + 1, q + n)
Text(b, q) == LET S == {i \in q + 1..Len(b) : b[i] = 0} IN SubSeq(b, q + 1, (CHOOSE i \in S : \A j \in S : i <= j) - 1)
Zeros(n) == [i \in 1..n |-> 0]
MMove(b, d, q, n) == Write(b, d, Cells(b, q, n))
MSet(b, d, ch, n) == Write(b, d, [i \in 1..n |-> ch])
Cpy(b, d, q) == Write(b, d, Append(Text(b, q), 0))
NCpy(b, d, q, n) == Write(b, d, SubSeq(Text(b, q) \o Zeros(n), 1, n))
Cat(b, d, q) == Cpy(b, d + Len(Text(b, d)), q)
NCat(b, d, q, n) == Write(b, d + Len(Text(b, d)), Append(Sub(Text(b, q), 0, n), 0))
=============================================================================
