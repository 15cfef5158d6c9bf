------------------------------ MODULE MC_Floats ------------------------------
(* The definitions of Floats against plain integer arithmetic, on every pair  *)
(* of numbers of a toy format (3 significant bits, quarter-steps down to 1/8, *)
(* below 16) and every third number of a scaled grid.                         *)
EXTENDS Floats, TLC
CONSTANT Far
VARIABLES x, y, n
vars == <<x, y, n>>
Toy == {RoundTo("toy", s, BOf(m), e) : s \in {-1, 1}, m \in 0..7, e \in -3..1}
U == 4096                                   \* the unit of the integer view is 1/U
PlusMinus(s, k) == IF s < 0 THEN -k ELSE k
Val(v) == PlusMinus(v.s, BNat(BShl(v.m, v.e + 12)))
Init == x \in Toy /\ y \in Toy /\ n = 0
Next == n < 6 /\ n' = n + 1 /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_vars
AbsI(k) == IF k < 0 THEN -k ELSE k
ValuesInToy == {Val(v) : v \in Toy}
First == n = 0
Canonical == First => RoundTo("toy", x.s, x.m, x.e) = x /\ Num(x.s, BShl(x.m, 3), x.e - 3) = x
Order == First => (CmpF(x, y) = (IF Val(x) < Val(y) THEN -1 ELSE IF Val(x) > Val(y) THEN 1 ELSE 0)) /\ CmpMag(x, y) = -CmpMag(y, x)
Sums == First => Val(AddF(x, y)) = Val(x) + Val(y) /\ Val(MulF(x, y)) = (Val(x) \div 64) * (Val(y) \div 64)
EvenLast(v, w) == v.m = <<>> \/ v.e > Mx(BLen(w.m) + w.e - 3, -3)
(* nearest, ties to an even last digit; n scales the exact value *)
Nearest == LET z == MulF(x, y) w == Num(z.s, z.m, z.e - n) r == RoundTo("toy", w.s, w.m, w.e) \* down into the subnormals
               a == AddF(x, Num(y.s, y.m, y.e - n)) q == RoundTo("toy", a.s, a.m, a.e)
               Near(g, v) == \A u \in ValuesInToy : AbsI(Val(v) - Val(g)) <= AbsI(u - Val(g))
               fits(g) == IsNum(g)
           IN /\ (w.e >= -12 /\ fits(r) => Near(w, r)) /\ (a.e >= -12 /\ fits(q) => Near(a, q))
              /\ (~fits(r) => AbsI(Val(w)) >= 15 * U) /\ (~fits(q) => AbsI(Val(a)) >= 15 * U)
              \* of two equally near, the one whose last of three digits (or of the eighths) is even
              /\ (w.e >= -12 /\ fits(r)) => \A u \in Toy : (Val(u) # Val(r) /\ AbsI(Val(u) - Val(w)) = AbsI(Val(r) - Val(w))) => EvenLast(r, w)
              /\ LET b == AddNear(x, Num(y.s, y.m, y.e - n), Far) IN Alike(RoundTo("toy", b.s, b.m, b.e), q, FALSE)
Whole4 == First =>
    LET f == Val(RoundF("floor", x)) c == Val(RoundF("ceil", x)) t == Val(RoundF("trunc", x)) r == Val(RoundF("round", x)) v == Val(x)
    IN /\ f % U = 0 /\ c % U = 0 /\ f <= v /\ v < f + U /\ c >= v /\ c - U < v
       /\ t = (IF v < 0 THEN c ELSE f) /\ r % U = 0 /\ 2 * AbsI(r - v) <= U /\ (2 * AbsI(r - v) = U => AbsI(r) > AbsI(v))
       /\ Val(FracF(x)) = v - t /\ RoundF("floor", x).s = x.s /\ FracF(x).s = x.s
Exps == (First /\ x.m # <<>>) => LET e == ExpOf(x) IN Val(Num(1, <<1>>, e)) <= AbsI(Val(x)) /\ AbsI(Val(x)) < Val(Num(1, <<1>>, e + 1))
Rests == (First /\ y.m # <<>>) =>
    LET v == Val(x) d == AbsI(Val(y)) r == FmodF(x, y) k == RemZ(x, y) a == AbsI(v)
        q == a \div d m == a % d up == 2 * m > d \/ (2 * m = d /\ q % 2 = 1)
    IN /\ Val(r) = PlusMinus(x.s, m) /\ r.s = x.s
       /\ Val(k) = PlusMinus(x.s, IF up THEN m - d ELSE m) /\ 2 * AbsI(Val(k)) <= d
       /\ QuoLow(x, y) = x.s * y.s * (IF x.m = <<>> THEN 0 ELSE (IF up THEN q + 1 ELSE q) % 8)
=============================================================================
