----------------------------- MODULE MC_Rationals -----------------------------
EXTENDS Rationals, FiniteSets, TLC
CONSTANTS K, L            \* operands in -K..K; registers stay within L
VARIABLES q, f0
Ops == {"set", "int", "copy", "+", "-", "*", "/", "+n", "*n", "/n", "+=", "-=", "*=", "/=", "n-", "n/", "neg", "abs", "++", "x--"}
Small(x) == AbsI(x[1]) <= L /\ x[2] <= L
Init == q = [i \in 1..2 |-> RI(0)] /\ f0 = "init"
Next == \E f \in Ops, i, j, d \in 1..2, n, m \in -K..K :
    LET r == Apply(q, f, i, j, d, n, m) IN
    /\ Small(r[1]) /\ Small(r[2]) /\ q' = r /\ f0' = f
Spec == Init /\ [][Next]_<<q, f0>>
Normal(x) == x[2] > 0 /\ Gcd(x[1], x[2]) = 1
AllNormal == Normal(q[1]) /\ Normal(q[2])
X == q[1]
Y == q[2]
Field ==
    /\ RAdd(X, Y) = RAdd(Y, X) /\ RMul(X, Y) = RMul(Y, X)
    /\ RSub(RAdd(X, Y), Y) = X /\ RAdd(X, RNeg(X)) = RI(0)
    /\ (Y[1] # 0 => RMul(RDiv(X, Y), Y) = X /\ RDiv(Y, Y) = RI(1))
    /\ RMul(X, RAdd(Y, RI(1))) = RAdd(RMul(X, Y), X)
Order ==
    /\ Cardinality({k \in 1..3 : <<RLess(X, Y), RLess(Y, X), X = Y>>[k]}) = 1
    /\ RLess(X, Y) => RLess(RAdd(X, RI(1)), RAdd(Y, RI(1))) /\ RLess(RNeg(Y), RNeg(X))
GcdLaw == \A a, b \in -K..K : LET g == Gcd(a, b) IN
    /\ (g = 0) = (a = 0 /\ b = 0)
    /\ g > 0 => a % g = 0 /\ b % g = 0 /\ \A h \in 1..K : a % h = 0 /\ b % h = 0 => g % h = 0
    /\ Lcm(a, b) * g = AbsI(a * b) \/ g = 0
=============================================================================
