-------------------------------- MODULE Bits --------------------------------
(* C11/C12: words and bitsets as sets of bit positions.                      *)
EXTENDS Integers, Sequences, FiniteSets

Univ(n) == 0..n - 1
BSeq(a) == {a[i] : i \in 1..Len(a)}                       \* positions listed in a sequence
ShiftL(n, x, k) == {i + k : i \in x} \cap Univ(n)
ShiftR(n, x, k) == {i - k : i \in x} \cap Univ(n)
Compl(n, x) == Univ(n) \ x
Xor(x, y) == (x \ y) \cup (y \ x)
MinOf(S, none) == IF S = {} THEN none ELSE CHOOSE i \in S : \A j \in S : i <= j
MaxOf(S, none) == IF S = {} THEN none ELSE CHOOSE i \in S : \A j \in S : i >= j
NextBit(n, x, i) == MinOf({j \in x : j > i}, n)           \* find_next; n is "not found"

Pow2T == [i \in 0..16 |-> 2 ^ i]
BitOf(v, i) == (v \div Pow2T[i]) % 2 = 1                  \* i-th bit of 0 <= v < 2^17
(* a word given as 16-bit limbs, least significant first *)
OfLimbs(w) == {i \in 0..16 * Len(w) - 1 : BitOf(w[(i \div 16) + 1], i % 16)}

(* text: most significant digit first; digits of s from p on, at most k of them, at most n *)
TextLen(n, s, p0, k) == LET a == Len(s) - p0  b == IF k < a THEN k ELSE a IN IF n < b THEN n ELSE b
OfText(n, s, p0, k) == LET m == TextLen(n, s, p0, k) IN {i \in 0..m - 1 : s[p0 + m - i] = 1}
BadText(n, s, p0, k) == \E i \in p0 + 1..p0 + TextLen(n, s, p0, k) : s[i] = 2
(* stream input: the leading digits, at most n *)
Digits(n, s) == IF \E i \in 1..Len(s) : s[i] = 2 \/ i > n THEN (CHOOSE i \in 1..Len(s) : (s[i] = 2 \/ i > n) /\ \A j \in 1..i - 1 : s[j] # 2 /\ j <= n) - 1 ELSE Len(s)

Rotl(n, x, k) == {(i + k) % n : i \in x}
=============================================================================
