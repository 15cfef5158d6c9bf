-------------------------------- MODULE Text --------------------------------
(* Numbers and their text.  A text is a sequence of character codes, an       *)
(* integer an exact Z of Big, a floating point number an exact record of      *)
(* Floats.                                                                    *)
EXTENDS Floats
SPACES == {9, 10, 11, 12, 13, 32}
IsDigit(ch) == ch \in 48..57
DigitOf(ch) == IF ch \in 48..57 THEN ch - 48 ELSE IF ch \in 97..122 THEN ch - 87 ELSE IF ch \in 65..90 THEN ch - 55 ELSE 99
At(cs, i) == IF i <= Len(cs) THEN cs[i] ELSE 0
RECURSIVE SpacesEnd(_, _)
SpacesEnd(cs, i) == IF At(cs, i) \in SPACES THEN SpacesEnd(cs, i + 1) ELSE i
RECURSIVE DigitsEnd(_, _, _)
DigitsEnd(cs, i, base) == IF DigitOf(At(cs, i)) < base THEN DigitsEnd(cs, i + 1, base) ELSE i
(* the number whose digits are cs[i .. j-1] *)
RECURSIVE DigitsVal(_, _, _, _, _)
DigitsVal(cs, i, j, base, v) == IF i >= j THEN v ELSE DigitsVal(cs, i + 1, j, base, BAdd(BMul1(v, base, 1, 0), BOf(DigitOf(cs[i]))))
Sign(ch) == IF ch = 45 THEN -1 ELSE 1
HasSign(ch) == ch \in {43, 45}
(* the longest prefix of the form of an integer: its value and its length (0: there is none) *)
ParseInt(cs, base) ==
    LET a == SpacesEnd(cs, 1)
        b == IF HasSign(At(cs, a)) THEN a + 1 ELSE a
        hex == base \in {0, 16} /\ At(cs, b) = 48 /\ At(cs, b + 1) \in {88, 120}
        hexd == hex /\ DigitOf(At(cs, b + 2)) < 16
        bs == IF base # 0 THEN base ELSE IF hexd THEN 16 ELSE IF At(cs, b) = 48 THEN 8 ELSE 10
        d == IF hexd THEN b + 2 ELSE b
        e == DigitsEnd(cs, d, bs)
    IN IF e = d THEN [v |-> Z(1, <<>>), n |-> 0, neg |-> FALSE]
       ELSE [v |-> Z(Sign(At(cs, a)), DigitsVal(cs, d, e, bs, <<>>)), n |-> e - 1, neg |-> At(cs, a) = 45]
ZMinOf(bits) == Z(-1, BPow2(bits - 1))
ZMaxOf(bits) == Z(1, BSub(BPow2(bits - 1), <<1>>))
(* into a type of so many bits: a signed one saturates; an unsigned one saturates the magnitude and then negates modulo 2^bits *)
IntoSigned(z, bits) == IF ZCmp(z, ZMinOf(bits)) < 0 THEN ZMinOf(bits) ELSE IF ZCmp(z, ZMaxOf(bits)) > 0 THEN ZMaxOf(bits) ELSE z
IntoUnsigned(z, bits) == IF BLen(z.m) > bits THEN Z(1, BSub(BPow2(bits), <<1>>))
                         ELSE IF z.s < 0 THEN Z(1, BSub(BPow2(bits), z.m)) ELSE z
IntoInt(z, bits, sg) == IF sg = 1 THEN IntoSigned(z, bits) ELSE IntoUnsigned(z, bits)
(* the text of an integer *)
CharOf(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE DigitsText(_, _)
DigitsText(m, base) == IF m = <<>> THEN <<>> ELSE LET w == BDiv1(m, base, Len(m), 0) IN Append(DigitsText(BTrim(w[1]), base), CharOf(w[2]))
FormatInt(z, base) == IF z.s = 0 THEN <<48>> ELSE (IF z.s < 0 THEN <<45>> ELSE <<>>) \o DigitsText(z.m, base)

(* decimal text of a floating point number: sign, digits, point, digits, exponent *)
RECURSIVE SmallVal(_, _, _, _)
SmallVal(cs, i, j, v) == IF i >= j THEN v ELSE SmallVal(cs, i + 1, j, IF v > 100000 THEN v ELSE 10 * v + (cs[i] - 48))
ParseDec(cs) ==
    LET a == SpacesEnd(cs, 1)
        b == IF HasSign(At(cs, a)) THEN a + 1 ELSE a
        c1 == DigitsEnd(cs, b, 10)
        pt == At(cs, c1) = 46
        d == IF pt THEN DigitsEnd(cs, c1 + 1, 10) ELSE c1
        frac == IF pt THEN d - c1 - 1 ELSE 0
        nd == (c1 - b) + frac
        ex == At(cs, d) \in {69, 101}
        es == IF HasSign(At(cs, d + 1)) THEN d + 2 ELSE d + 1
        ee == DigitsEnd(cs, es, 10)
        has == ex /\ ee > es
        q == IF has THEN Sign(At(cs, d + 1)) * SmallVal(cs, es, ee, 0) ELSE 0
    IN IF nd = 0 THEN [s |-> 1, m |-> <<>>, q |-> 0, n |-> 0]
       ELSE [s |-> Sign(At(cs, a)), m |-> DigitsVal(cs, c1 + 1, d, 10, DigitsVal(cs, b, c1, 10, <<>>)), q |-> q - frac, n |-> (IF has THEN ee ELSE d) - 1]
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN <<1>> ELSE IF n % 3 = 0 THEN LET h == Pow10(n \div 3) IN BMul(h, BMul(h, h)) ELSE BMul1(Pow10(n - 1), 10, 1, 0)
Up(n) == IF n > 0 THEN n ELSE 0
BDiff(a, b) == IF BLess(a, b) THEN BSub(b, a) ELSE BSub(a, b)
(* |x| and m * 10^q over the common scale 2^Up(-x.e) * 10^Up(-q) *)
ScaleX(x, q) == BMul(BShl(x.m, Up(x.e)), Pow10(Up(-q)))
ScaleD(m, q, x) == BShl(BMul(m, Pow10(Up(q))), Up(-x.e))
(* | |x| - m 10^q | <= k 2^-p |m 10^q| *)
WithinRel(x, m, q, k, w) == LET A == ScaleX(x, q) B == ScaleD(m, q, x) IN BCmp(BShl(BDiff(A, B), w), BMul(B, BOf(k))) <= 0
(* x is a nearest number of w bits *)
NearestTo(x, m, q, w) == LET A == ScaleX(x, q) B == ScaleD(m, q, x) E == ExpOf(x) S == BShl(Pow10(Up(-q)), Up(-x.e))
                         IN BCmp(BShl(BDiff(A, B), w + Up(-E)), BShl(S, Up(E))) <= 0
(* the digits of a decimal number after leading zeros *)
DecDigits(m) == Len(DigitsText(m, 10))
(* what a type reads: far above its range an infinity, far below zero, in between within k units of 2^-p; exactly rounded *)
(* when few digits meet a power of ten that is a single exact factor                                                       *)
Ten(t) == CASE t = "f" -> [lo |-> -37, hi |-> 38, dig |-> 6] [] t = "d" -> [lo |-> -307, hi |-> 308, dig |-> 15] [] t = "l" -> [lo |-> -4931, hi |-> 4932, dig |-> 18]
ReadsAs(t, d, x) ==
    LET top == DecDigits(d.m) + d.q - 1
    IN IF d.m = <<>> THEN IsZero(x)
       ELSE IF top > Ten(t).hi + 1 THEN x = Inf(d.s)
       ELSE IF top < Ten(t).lo - 20 THEN IsZero(x)
       ELSE IF top >= Ten(t).hi \/ top <= Ten(t).lo + 1 THEN TRUE
       ELSE IsNum(x) /\ x.s = d.s /\ x.m # <<>>
            /\ IF DecDigits(d.m) <= Ten(t).dig /\ d.q \in {-8, -4, -2, -1, 0, 1, 2, 4, 8} THEN NearestTo(x, d.m, d.q, Fmt(t).p)
               ELSE WithinRel(x, d.m, d.q, IF d.q \in -22..22 THEN 16 ELSE IF t = "l" THEN 2000 ELSE 120, Fmt(t).p)
(* fixed text: digits, a point and six digits *)
AllDigits(cs, i, j) == \A k \in i..j : IsDigit(cs[k])
FixedOK(t, x, cs, zs) ==
    LET b == IF At(cs, 1) = 45 THEN 2 ELSE 1
        n == Len(cs)
        m == DigitsVal(cs, n - 5, n + 1, 10, DigitsVal(cs, b, n - 6, 10, <<>>))
        Q == BMul(x.m, Pow10(6))
        A == BShl(Q, Up(x.e))            \* |x| 10^6, and below the text, over 2^Up(-x.e)
        B == BShl(m, Up(-x.e))
        exact == x.e + TrailZ(Q, 1) >= 0 /\ BLen(Q) + x.e <= Fmt(t).p
        dif == BDiff(A, B)
    IN /\ n >= b + 7 /\ cs[n - 6] = 46 /\ AllDigits(cs, b, n - 7) /\ AllDigits(cs, n - 5, n)
       /\ (cs[b] = 48 => n - 6 = b + 1)
       /\ ((zs \/ x.m # <<>>) => (b = 2) = (x.s < 0))
       /\ IF x.m = <<>> THEN m = <<>>
          ELSE IF exact THEN A = B
          ELSE IF ExpOf(x) >= Fmt(t).p THEN BCmp(BShl(dif, Fmt(t).p - 7), A) <= 0
          \* twice the difference at most one unit and eight units of 2^-p
          ELSE BCmp(BShl(BTwice(dif), Fmt(t).p), BAdd(BShl(<<1>>, Up(-x.e) + Fmt(t).p), BMul1(A, 8, 1, 0))) <= 0
(* the text with an exponent: d.dddddde+dd *)
ExpTextOK(t, x, cs, zs) ==
    LET b == IF At(cs, 1) = 45 THEN 2 ELSE 1
        n == Len(cs)
        m == DigitsVal(cs, b + 2, b + 8, 10, DigitsVal(cs, b, b + 1, 10, <<>>))
        E == Sign(At(cs, b + 9)) * SmallVal(cs, b + 10, n + 1, 0)
        q == E - 6
        A == ScaleX(x, q)
        B == ScaleD(m, q, x)
        unit == ScaleD(<<1>>, q, x)
        k == CASE t = "f" -> 100 [] t = "d" -> 800 [] t = "l" -> 12000
    IN /\ n >= b + 11 /\ IsDigit(cs[b]) /\ cs[b + 1] = 46 /\ AllDigits(cs, b + 2, b + 7) /\ cs[b + 8] = 101 /\ HasSign(cs[b + 9]) /\ AllDigits(cs, b + 10, n)
       /\ (n > b + 11 => cs[b + 10] # 48) /\ (E = 0 => cs[b + 9] = 43)
       /\ ((zs \/ x.m # <<>>) => (b = 2) = (x.s < 0))
       /\ IF x.m = <<>> THEN m = <<>> /\ E = 0
          ELSE /\ cs[b] # 48
               /\ BCmp(BShl(BTwice(BDiff(A, B)), Fmt(t).p), BAdd(BShl(unit, Fmt(t).p), BMul(A, BOf(2 * k)))) <= 0
=============================================================================
