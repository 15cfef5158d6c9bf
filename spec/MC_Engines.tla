----------------------------- MODULE MC_Engines -----------------------------
(* The engines on toy parameters, every seed: numbers stay in range, the text *)
(* restores the state, jumping ahead is stepping, full-period generators have *)
(* their full period, tempering and the steps of the reversible families lose *)
(* nothing.                                                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Engines
CONSTANTS LM, MAXSTEPS
Lcg(a, c, m) == [k |-> "lcg", tb |-> 32, sg |-> FALSE, a |-> BOf(a), c |-> BOf(c), m |-> BOf(m)]
Inv(a, c, m) == [k |-> "inv", tb |-> 32, sg |-> FALSE, a |-> BOf(a), c |-> BOf(c), m |-> BOf(m)]
Lf(w, n, q, st) == [k |-> "lfsr", w |-> w, n |-> n, q |-> q, s |-> st]
Mt == [k |-> "mt", w |-> 5, n |-> 4, m |-> 2, r |-> 2, a |-> BOf(25), u |-> 2, d |-> BOf(31), s |-> 1, b |-> BOf(21), t |-> 2, c |-> BOf(28), l |-> 3, f |-> BOf(13)]
Mt2 == [k |-> "mt", w |-> 4, n |-> 3, m |-> 1, r |-> 3, a |-> BOf(9), u |-> 1, d |-> BOf(15), s |-> 1, b |-> BOf(5), t |-> 2, c |-> BOf(12), l |-> 2, f |-> BOf(7)]
Lcgs == {Lcg(a, c0, m) : a \in 0..(LM - 1), c0 \in 0..(LM - 1), m \in 1..LM}
Cfgs == {g \in Lcgs : BLess(g.a, g.m) /\ BLess(g.c, g.m) /\ (g.c = <<>> => BLess(<<1>>, g.m))}
        \cup {Inv(a, b, 7) : a \in 1..6, b \in 1..6}
        \cup {Lf(4, 3, 1, 1), Lf(4, 3, 1, 2), Lf(6, 5, 2, 1), Lf(6, 5, 2, 3), Lf(7, 6, 1, 4), Lf(5, 3, 1, 2)}
        \cup {Mt, Mt2}
        \cup {[k |-> "xor", w |-> 5, w2 |-> 8, s1 |-> s1, s2 |-> s2, b1 |-> Lf(4, 3, 1, 1), b2 |-> Lcg(5, 3, 8)] : s1 \in 0..1, s2 \in 0..2}
        \cup {[k |-> "add", b1 |-> Lcg(3, 0, 7), b2 |-> Lcg(2, 0, 5)]}
        \cup {[k |-> "shf", n |-> n, b1 |-> b] : n \in 1..4, b \in {Lcg(5, 3, 8), Lcg(3, 0, 7)}}
        \cup {[k |-> "shf", n |-> 2, b1 |-> [k |-> "add", b1 |-> Lcg(3, 0, 7), b2 |-> Lcg(2, 0, 5)]]}
VARIABLES g, st, n, last, start
vars == <<g, st, n, last, start>>
Init == /\ g \in Cfgs /\ n = 0 /\ last = <<0>>
        /\ \E x \in 0..9 : st = New(g, ZOf(x))
        /\ start = st
Next == /\ n < MAXSTEPS /\ n' = n + 1 /\ g' = g /\ start' = start
        /\ LET w == Step(g, st) IN last' = w[1] /\ st' = w[2]
Fair == Init /\ [][Next]_vars
\* (a multiplicative generator reaches zero, outside its range, only when its multiplier shares a factor with the modulus)
RangeOk == (n > 0 /\ (g.k = "lcg" /\ g.c = <<>> => BGcd(g.a, g.m) = <<1>>)) => InRange(g, last)
TextOk == LET w == Load(g, Text(g, st)) IN w[1] = st /\ w[2] = <<>>
\* the affine jump is the repeated step, from any state and for any distance
JumpOk == g.k = "lcg" => Discard(g, start, BOf(n)) = st
\* Hull and Dobell: with c prime to m, a - 1 divisible by all primes of m (and by 4 with m), the period is m
Prime(x) == x > 1 /\ \A d \in 2..(x - 1) : x % d # 0
HullDobell == g.k = "lcg" /\ LET m == BNat(g.m)  a == BNat(g.a)  cc == BNat(g.c) IN
                 /\ BGcd(g.c, g.m) = <<1>>
                 /\ \A q \in 2..m : Prime(q) /\ m % q = 0 => (a - 1) % q = 0
                 /\ m % 4 = 0 => (a - 1) % 4 = 0
PeriodOk == (n > 0 /\ HullDobell) => ((st = start) <=> (n % BNat(g.m) = 0))
\* primitive trinomials: the k upper bits run through all 2^k - 1 nonzero values
LfPeriodOk == (n > 0 /\ g.k = "lfsr" /\ <<g.n, g.q>> \in {<<3, 1>>, <<5, 2>>, <<6, 1>>}) =>
                 LET up(x) == BHigh(x, g.w - g.n)  per == 2 ^ g.n - 1 IN
                 /\ up(st) # <<>>
                 /\ (BGcd(BOf(g.s), BOf(per)) = <<1>> => ((up(st) = up(start)) <=> (n % per = 0)))
InvOk == g.k = "inv" => \A x \in 1..(BNat(g.m) - 1) : MulMod(BOf(x), InvMod(BOf(x), g.m), g.m) = <<1>>
TemperOk == (g.k = "mt" /\ n = 0) => \A x, y \in 0..(2 ^ g.w - 1) : MtTemper(g, BOf(x)) = MtTemper(g, BOf(y)) => x = y
\* two windows with the same successor window differ at most in the r low bits of the oldest word
TwistOk == (g.k = "mt") => \A x \in 0..(2 ^ g.w - 1) :
              LET o == [st EXCEPT ![1] = BOf(x)] IN
              (Step(g, o)[2] = Step(g, st)[2]) <=> (BHigh(BOf(x), g.r) = BHigh(st[1], g.r))
LcgInjective == (g.k = "lcg" /\ n = 0 /\ BGcd(g.a, g.m) = <<1>>) =>
              \A x, y \in 0..(BNat(g.m) - 1) : Step(g, BOf(x)) = Step(g, BOf(y)) => x = y
\* shuffling only delays: a number delivered was produced by the base engine before
ShfOk == g.k = "shf" => /\ InRange(g, st[3])
                        /\ \A i \in 1..g.n : InRange(g, st[2][i])
=============================================================================
