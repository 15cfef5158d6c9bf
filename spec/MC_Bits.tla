------------------------------- MODULE MC_Bits -------------------------------
(* Algebra the bit specification must satisfy, on every pair of words of every *)
(* width up to N.                                                              *)
EXTENDS BitFns, TLC
CONSTANT N
VARIABLES n, x, y
Init == n \in 0..N /\ x \in SUBSET Univ(n) /\ y \in SUBSET Univ(n)
Next == UNCHANGED <<n, x, y>>
RECURSIVE Val(_)
Val(z) == IF z = {} THEN 0 ELSE LET i == MinOf(z, 0) IN 2 ^ i + Val(z \ {i})
Inv ==
    /\ Compl(n, Compl(n, x)) = x
    /\ Compl(n, x \cap y) = Compl(n, x) \cup Compl(n, y)
    /\ Xor(x, y) = (x \cup y) \ (x \cap y) /\ Xor(Xor(x, y), y) = x
    /\ \A k \in 0..N : /\ Val(ShiftR(n, x, k)) = Val(x) \div 2 ^ k
                       /\ Val(ShiftL(n, x, k)) = (Val(x) * 2 ^ k) % 2 ^ n
                       /\ n > 0 => Rotl(n, Rotl(n, x, k), N * n - k) = x
    /\ OfLimbs(<<Val(x)>>) = x
    /\ OfText(n, [i \in 1..n |-> IF n - i \in x THEN 1 ELSE 0], 0, 99) = x
    /\ {NextBit(n, x, i) : i \in -1..n - 1} \ {n} = x
    (* the rightmost-bit operations are the usual arithmetic tricks *)
    /\ n > 0 => LET M == 2 ^ n  Word(v) == {i \in Univ(n) : BitOf(v % M, i)} IN
        /\ Val(Neg(n, x)) = (M - Val(x)) % M
        /\ IsoLs1(x) = x \cap Word(M - Val(x))
        /\ IsoLs0(n, x) = Compl(n, x) \cap Word(Val(x) + 1)
        /\ MaskT0(n, x) = Compl(n, x) \cap Word(Val(x) + M - 1)
        /\ MaskT1(n, x) = x \cap Compl(n, Word(Val(x) + 1))
        /\ MaskT0Ls1(n, x) = Xor(x, Word(Val(x) + M - 1))
        /\ MaskT1Ls0(n, x) = Xor(x, Word(Val(x) + 1))
        /\ Clz(n, x) + Length(n, x) = n
        /\ Ctz(n, x) = Clz(n, Reverse(n, x))
        /\ \A k \in 0..n - 1 : Rotr(n, Rotl(n, x, k), k) = x /\ Reverse(n, Rotl(n, x, k)) = Rotr(n, Reverse(n, x), k)
                               /\ Ge(n, k) \cup Le(n, k) = Univ(n) /\ Ge(n, k) \cap Le(n, k) = {k}
        /\ \A k \in 1..n : ReverseIn(n, x, k) = ShiftR(n, Reverse(n, x), n - k)
        /\ Length(n, x) < n => Val(CarryU(n, x)) >= Val(x) /\ Val(CarryU(n, x)) < 2 * Val(x) + (IF x = {} THEN 1 ELSE 0)
    /\ n % 8 = 0 => SwapBytes(n, SwapBytes(n, x)) = x
==============================================================================
