---------------------------- MODULE MC_CStrings ----------------------------
(* Laws of the C string functions over every small buffer and pair of texts. *)
EXTENDS CStrings, TLC
CONSTANTS A, L
VARIABLES x, y, b
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == x \in Seqs(A, L) /\ y \in Seqs(A, L) /\ b \in [1..L + 1 -> A \cup {0}]
Next == UNCHANGED <<x, y, b>>
Spec == Init /\ [][Next]_<<x, y, b>>
Laws ==
    /\ Cmp(x, y) = -Cmp(y, x) /\ (Cmp(x, y) = 0 <=> x = y)
    /\ \A n \in 0..L : NCmp(x, y, n) # 0 => NCmp(x, y, L) = Cmp(x, y) /\ Cmp(x, y) = NCmp(x, y, n)
    /\ Span(x, y) <= Len(x) /\ (\A i \in 1..Span(x, y) : x[i] \in Chars(y)) /\ (Span(x, y) < Len(x) => x[Span(x, y) + 1] \notin Chars(y))
    /\ Span(x, y) = 0 \/ CSpan(x, y) = 0 \/ x = << >>
    /\ (StrStr(x, y) = -1 <=> Occ(x, y) = {}) /\ (StrStr(x, y) >= 0 => Sub(x, StrStr(x, y), Len(y)) = y)
    /\ \A ch \in A \cup {0} : Chr(x, ch) <= RChr(x, ch) /\ (Chr(x, ch) = -1 <=> RChr(x, ch) = -1) /\ (ch = 0 => Chr(x, ch) = Len(x))
Buffers ==
    /\ \A n \in 0..Len(b), d \in 0..Len(b), q \in 0..Len(b) : d + n <= Len(b) /\ q + n <= Len(b) =>
          LET r == MMove(b, d, q, n) IN Cells(r, d, n) = Cells(b, q, n) /\ Cells(r, 0, d) = Cells(b, 0, d) /\ Cells(r, d + n, Len(b) - d - n) = Cells(b, d + n, Len(b) - d - n)
    /\ LET bb == x \o <<0>> \o [i \in 1..L |-> 7] \o y \o <<0>>  q == Len(x) + 1 + L
       IN /\ Text(Cat(bb, 0, q), 0) = x \o y
          /\ (\A n \in 0..L : Text(NCat(bb, 0, q, n), 0) = x \o Sub(y, 0, n))
          /\ Text(Cpy(bb, 0, q), 0) = y
          /\ Text(Cat(bb, 0, q), q) = y
=============================================================================
