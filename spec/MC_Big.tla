------------------------------- MODULE MC_Big -------------------------------
(* The big numbers against TLC's own, on values around the digit boundaries.  *)
EXTENDS Big, TLC
CONSTANTS Vals, Smalls
VARIABLES x, y
Init == x \in Vals /\ y \in Vals
Next == FALSE /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
A == BOf(x)
B == BOf(y)
RECURSIVE Gcd(_, _)
Gcd(m, n) == IF n = 0 THEN m ELSE Gcd(n, m % n)
RECURSIVE XorN(_, _)
XorN(m, n) == IF m = 0 THEN n ELSE IF n = 0 THEN m ELSE ((m + n) % 2) + 2 * XorN(m \div 2, n \div 2)
AddOk == BNat(BAdd(A, B)) = x + y /\ BTrim(BAdd(A, B)) = BAdd(A, B)
SubOk == x >= y => BNat(BSub(A, B)) = x - y
MulOk == \A k \in Smalls : BNat(BMul(A, BOf(k))) = x * k /\ BMul(BOf(k), A) = BMul(A, BOf(k))
DistOk == BMul(A, BAdd(A, B)) = BAdd(BMul(A, A), BMul(A, B))
DivOk == y > 0 => /\ BNat(BQuo(A, B)) = x \div y /\ BNat(BRem(A, B)) = x % y
                  /\ BDivMod(BAdd(BMul(A, B), BOf(x % y)), B) = <<A, BOf(x % y)>>
CmpOk == BLess(A, B) = (x < y) /\ (BCmp(A, B) = 0) = (x = y)
GcdOk == BNat(BGcd(A, B)) = Gcd(x, y)
BitsOk == \A n \in 0..26 : BNat(BLow(A, n)) = x % 2 ^ n /\ BNat(BHigh(A, n)) = x \div 2 ^ n /\ BHigh(BShl(A, n), n) = A /\ BLow(BShl(A, n), n) = <<>> /\ BPow2(n) = BOf(2 ^ n)
XorOk == BNat(BXor(A, B)) = XorN(x, y) /\ BAdd(BAnd(A, B), BOr(A, B)) = BAdd(A, B) /\ BSub(BOr(A, B), BAnd(A, B)) = BXor(A, B)
SignOk == \A s, t \in {-1, 1} : LET a == s * x  b == t * y  P == ZOf(a)  Q == ZOf(b) IN
    /\ ZNat(ZAdd(P, Q)) = a + b /\ ZNat(ZSub(P, Q)) = a - b /\ ZLess(P, Q) = (a < b) /\ ZNeg(ZNeg(P)) = P /\ ZMul(P, ZAdd(P, Q)) = ZAdd(ZMul(P, P), ZMul(P, Q))
    /\ (b # 0 => ZAdd(ZMul(ZQuo(P, Q), Q), ZRem(P, Q)) = P)
=============================================================================
