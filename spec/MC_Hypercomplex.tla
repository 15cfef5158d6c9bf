--------------------------- MODULE MC_Hypercomplex ---------------------------
(* Two registers run the machine of Hypercomplex; the laws of the algebras    *)
(* hold of whatever values they reach.                                        *)
EXTENDS Hypercomplex, TLC
CONSTANTS Bound, Dim, Most
VARIABLES q, w
vars == <<q, w>>
Rng == -Bound..Bound
Elems == IF Dim = 2 THEN {Pad(<<a, b>>) : a \in Rng, b \in Rng} ELSE {x \in {<<a, b, c, d>> : a \in Rng, b \in Rng, c \in Rng, d \in Rng} : QL1(x) <= Most}
Sc(x) == QScale(S, x)
One == <<1, 0, 0, 0>>
I == <<0, 1, 0, 0>>
J == <<0, 0, 1, 0>>
K == <<0, 0, 0, 1>>
Units == IF Dim = 2 THEN {One, I, <<1, 1, 0, 0>>} ELSE {One, J, <<1, 1, 1, 1>>, <<0, 1, -1, 0>>}
Init == q \in {<<x, Pad(<<>>)>> : x \in Elems} /\ w \in Units
Next == \/ \E f \in {"+w", "-w", "*w", "/w", "+q", "-q", "-1", "conj", "=w", "=q"}, i, d \in 1..2 :
             LET r == StepTo(<<Sc(q[1]), Sc(q[2])>>, f, i, d, Sc(w))
             IN /\ \A n \in 1..2 : \A k \in 1..4 : r[n][k] % S = 0 /\ r[n][k] \in -(S * Bound)..(S * Bound)
                /\ (Dim = 4 => \A n \in 1..2 : QL1(r[n]) <= S * Most)
                /\ q' = <<QDivExact(r[1], S), QDivExact(r[2], S)>> /\ w' = w
Spec == Init /\ [][Next]_vars
X == q[1]
Y == q[2]
Table == /\ QMul(I, I) = QNeg(One) /\ QMul(J, J) = QNeg(One) /\ QMul(K, K) = QNeg(One) /\ QMul(QMul(I, J), K) = QNeg(One)
         /\ QMul(I, J) = K /\ QMul(J, K) = I /\ QMul(K, I) = J /\ QMul(J, I) = QNeg(K)
Assoc == QMul(QMul(X, Y), w) = QMul(X, QMul(Y, w)) /\ QMul(QMul(w, X), Y) = QMul(w, QMul(X, Y))
Distrib == QMul(QAdd(X, Y), w) = QAdd(QMul(X, w), QMul(Y, w)) /\ QMul(w, QSub(X, Y)) = QSub(QMul(w, X), QMul(w, Y))
Commute == Dim = 2 => QMul(X, Y) = QMul(Y, X)
NormMul == QNorm(QMul(X, Y)) = QNorm(X) * QNorm(Y)
ConjAnti == QConj(QMul(X, Y)) = QMul(QConj(Y), QConj(X)) /\ QConj(QConj(X)) = X /\ QMul(X, QConj(X)) = QScale(QNorm(X), One)
Inverse == (QNorm(Y) # 0) => LET xy == QMul(X, Y) IN StepTo(<<Sc(xy), Sc(Y)>>, "/w", 1, 1, Sc(Y))[1] = Sc(X)
Norms == QSup(X) <= QL1(X) /\ QL1(QAdd(X, Y)) <= QL1(X) + QL1(Y) /\ QSup(X) * QSup(X) <= QNorm(X) /\ (QNorm(X) = 0 <=> X = Pad(<<>>))
Text == (w = One /\ Y = Pad(<<>>)) => LET x == [k \in 1..4 |-> 37 * X[k]]       \* 37/64 has every binary digit
        IN /\ QuaternionAt(TextOf(x), 1).ok /\ QuaternionAt(TextOf(x), 1).v = x
           /\ LET g == ComplexAt(TextOf(QLo(x)), 1) IN g.ok /\ g.v = QLo(x)
           /\ \A n \in 1..3 : LET g == QuaternionAt(TextOf(SubSeq(x, 1, n)), 1) IN g.ok /\ g.v = Pad(SubSeq(x, 1, n))
           /\ LET g == QuaternionAt(<<40>> \o TextOf(QLo(x)) \o <<44>> \o TextOf(QHi(x)) \o <<41>>, 1) IN g.ok /\ g.v = x
           /\ ~QuaternionAt(SubSeq(TextOf(x), 1, Len(TextOf(x)) - 1), 1).ok
Rounding == \A k \in 1..4 : LET v == 37 * X[k] IN FloorS(v) <= v /\ v < FloorS(v) + S /\ CeilS(v) >= v /\ v > CeilS(v) - S /\ AbsZ(TruncS(v)) <= AbsZ(v) /\ 2 * AbsZ(RoundS(v) - v) <= S /\ RoundS(-v) = -RoundS(v)
=============================================================================
