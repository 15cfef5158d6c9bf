-------------------------- MODULE MC_Distributions --------------------------
(* Drawing one number after another, every generator and range up to the     *)
(* bounds: results stay in range, more numbers do not change a result, and    *)
(* every result comes from equally many sequences of numbers.                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Distributions
CONSTANTS MAXR, MAXB, LEN
VARIABLES range, br, ks
vars == <<range, br, ks>>
Init == range \in 0..MAXR /\ br \in 0..MAXB /\ ks = <<>>
Out == Uni(BOf(range), BOf(br), ks, 1)
Next == Len(ks) < LEN /\ ~Out.ok /\ \E k \in 0..br : ks' = Append(ks, BOf(k)) /\ UNCHANGED <<range, br>>
InRangeOk == Out.ok => ~BLess(BOf(range), Out.v)
PrefixOk == Out.ok => /\ Out.i = Len(ks) + 1
                      /\ \A k \in 0..br : Uni(BOf(range), BOf(br), Append(ks, BOf(k)), 1) = Out
Seqs(n) == [1..n -> {BOf(k) : k \in 0..br}]
Hits(v) == Cardinality({s \in Seqs(LEN) : LET o == Uni(BOf(range), BOf(br), s, 1) IN o.ok /\ o.v = BOf(v)})
EvenOk == (ks = <<>> /\ br > 0) => \A v \in 0..range : Hits(v) = Hits(0)
SomeOk == (ks = <<>> /\ br > 0 /\ range < (br + 1) ^ (LEN - 1)) => Hits(0) > 0
SmallOk == ks = <<>> => \A k \in 0..br : ~BLess(BOf(range), Small(BOf(range), BOf(br), BOf(k)))
\* the functions of one uniform number: exactly one answer is right, away from the seams
GeoOk == (ks = <<>> /\ br = 1 /\ range = 1) => \A k \in 0..30 :
   LET g == {x \in 0..40 : IsGeo(x, Num(1, <<1>>, -1), BOf(2 * k + 1), BPow2(6))} IN Cardinality(g) = 1
BinOk == (ks = <<>> /\ br = 1 /\ range = 1) => \A k \in 0..31 : \A p \in {1, 3, 5} :
   LET g == {x \in 0..3 : IsBin(x, 3, Num(1, BOf(p), -3), BOf(64 * k + 37), BPow2(11))} IN Cardinality(g) = 1
PoiOk == (ks = <<>> /\ br = 1 /\ range = 1) => \A k \in 0..5 :
   LET g == {x \in 0..8 : IsPoi(x, [a |-> <<5>>, sh |-> 1], BOf(160 * k + 37), BPow2(10))} IN Cardinality(g) = 1
=============================================================================
