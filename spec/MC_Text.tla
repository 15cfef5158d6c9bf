------------------------------ MODULE MC_Text ------------------------------
(* The grammar and the conversions of Text on every short text over a small   *)
(* alphabet, built character by character, and on every small integer.        *)
EXTENDS Text, TLC
CONSTANTS MAXLEN, MAXV
VARIABLES cs, v
vars == <<cs, v>>
ALPHA == {32, 43, 45, 46, 48, 49, 55, 97, 101, 120}      \* ' ' + - . 0 1 7 a e x
BASES == {0, 2, 8, 10, 16, 36}
Init == cs = <<>> /\ v = 0
Extend == Len(cs) < MAXLEN /\ v = 0 /\ \E ch \in ALPHA : cs' = Append(cs, ch) /\ v' = v
Count == cs = <<>> /\ v < MAXV /\ v' = v + 1 /\ cs' = cs
Next == Extend \/ Count
Spec == Init /\ [][Next]_vars
ParseSane ==
    \A b \in BASES : LET r == ParseInt(cs, b)
        IN /\ r.n <= Len(cs)
           /\ r.n > 0 => /\ DigitOf(cs[r.n]) < (IF b = 0 THEN 16 ELSE b)                 \* ends with a digit
                         /\ ParseInt(SubSeq(cs, 1, r.n), b) = r                          \* depends on its prefix only
                         /\ LET u == ParseInt(FormatInt(r.v, IF b = 0 THEN 10 ELSE b), IF b = 0 THEN 10 ELSE b) IN u.v = r.v
           /\ (r.n = 0 => r.v.s = 0)
           /\ ParseInt(Append(cs, 126), b) = r /\ ParseInt(<<9>> \o cs, b).v = r.v
(* one more digit multiplies by the base and adds *)
Horner == \A b \in {2, 8, 10, 36} : LET r == ParseInt(cs, b) IN
    (r.n > 0 /\ r.n = Len(cs)) => LET u == ParseInt(Append(cs, 49), b) IN ZAbs(u.v) = ZAdd(ZMul(ZAbs(r.v), ZOf(b)), ZOf(1))
DecSane == LET d == ParseDec(cs) IN
    /\ d.n <= Len(cs) /\ (d.n > 0 => ParseDec(SubSeq(cs, 1, d.n)) = d) /\ ParseDec(Append(cs, 126)) = d
    \* without a point and an exponent it is the integer
    /\ ((\A k \in 1..Len(cs) : cs[k] \notin {46, 101, 69}) => (d.q = 0 /\ Z(d.s, d.m) = ParseInt(cs, 10).v))
    /\ LET r == ParseInt(cs, 10) IN r.n > 0 => d.n >= r.n
RoundTrip == \A b \in 2..36 : \A s \in {-1, 1} : LET t == FormatInt(ZOf(s * v), b) IN
    /\ ParseInt(t, b) = [v |-> ZOf(s * v), n |-> Len(t), neg |-> s * v < 0]
    /\ (v # 0 => DigitsText(BOf(v), b)[1] # 48) /\ (b > 10 \/ \A k \in 1..Len(t) : IsDigit(t[k]) \/ t[k] = 45)
(* saturation and wrapping, against arithmetic on integers of four and five bits *)
Narrow == \A bits \in 3..6 : \A s \in {-1, 1} :
    LET z == ZOf(s * v) h == 2 ^ (bits - 1) m == 2 ^ bits
    IN /\ ZNat(IntoSigned(z, bits)) = (IF s * v < -h THEN -h ELSE IF s * v > h - 1 THEN h - 1 ELSE s * v)
       /\ ZNat(IntoUnsigned(z, bits)) = (IF v >= m THEN m - 1 ELSE (s * v) % m)
(* of an eighth there is exactly one text with six digits, and one with an exponent up to the choice between equals *)
SixText(n) == LET t == DigitsText(BOf(n), 10) z == [k \in 1..7 |-> 48]
                  w == IF Len(t) < 7 THEN SubSeq(z, 1, 7 - Len(t)) \o t ELSE t
              IN SubSeq(w, 1, Len(w) - 6) \o <<46>> \o SubSeq(w, Len(w) - 5, Len(w))
OneText == v <= 400 => LET x == Num(1, BOf(v), -3) IN \A d \in {-125000, -1, 0, 1, 125000} :
    v * 125000 + d >= 0 => (FixedOK("d", x, SixText(v * 125000 + d), TRUE) = (d = 0))
PointExp(m, E) == LET t == DigitsText(BOf(m), 10) IN <<t[1], 46>> \o SubSeq(t, 2, 7) \o <<101, IF E < 0 THEN 45 ELSE 43, 48>> \o DigitsText(BOf(IF E = 0 THEN 0 ELSE IF E < 0 THEN -E ELSE E), 10) \o (IF E = 0 THEN <<48>> ELSE <<>>)
OneExp == v \in 1..9 => \A E \in -4..4 : \A d \in {-2, -1, 0, 1, 2} :
    LET x == IF E >= 0 THEN Num(1, BMul(BOf(v), Pow10(E)), 0) ELSE RoundTo("d", 1, BQuo(BShl(BOf(v), 80), Pow10(-E)), -80)
    IN v * 1000000 + d >= 1000000 => (ExpTextOK("d", x, PointExp(v * 1000000 + d, E), TRUE) = (d = 0))
(* reading: the nearest double of a short decimal is accepted, its neighbours are not *)
Reading == v \in 1..999 => LET d == [s |-> 1, m |-> BOf(v), q |-> -4, n |-> 1]
                               x == RoundTo("d", 1, BQuo(BShl(BOf(v), 120), Pow10(4)), -120)
                               u == BShl(x.m, 53 - BLen(x.m)) e == x.e - (53 - BLen(x.m))
                           IN /\ ReadsAs("d", d, x) /\ ~ReadsAs("d", d, Num(1, BAdd(u, <<1>>), e)) /\ ~ReadsAs("d", d, Num(1, BSub(u, <<1>>), e)) /\ ~ReadsAs("d", d, Num(-1, x.m, x.e))
=============================================================================
