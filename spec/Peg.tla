--------------------------------- MODULE Peg ---------------------------------
(* Parsing-expression grammars as sprout::weed builds them: what prefix of a *)
(* text a grammar matches, and the attribute that it delivers.               *)
(*                                                                           *)
(* A grammar is a nested sequence <<kind, ...>>; texts are sequences of      *)
(* character codes; positions count from 0.  The type of an attribute:       *)
(*   <<"u">> none, <<"c">> a character, <<"i", bits, signed>> an integer,    *)
(*   <<"str", N>> at most N characters, <<"arr", T, N>> exactly N elements,  *)
(*   <<"tup", types>>, <<"var", T, U>> one of two.                           *)
EXTENDS Naturals, Integers, Sequences

NoneT == <<"u">>
Max2(a, b) == IF a > b THEN a ELSE b

(*-- characters --*)
Between(x, a, b) == a <= x /\ x <= b
Lower(x) == Between(x, 97, 122)
Upper(x) == Between(x, 65, 90)
Digit(x) == Between(x, 48, 57)
InClass(n, x) ==
    CASE n = "alnum" -> Lower(x) \/ Upper(x) \/ Digit(x)
      [] n = "alpha" -> Lower(x) \/ Upper(x)
      [] n = "blank" -> x = 32 \/ x = 9
      [] n = "cntrl" -> x < 32 \/ x = 127
      [] n = "digit" -> Digit(x)
      [] n = "graph" -> Between(x, 33, 126)
      [] n = "print" -> Between(x, 32, 126)
      [] n = "punct" -> Between(x, 33, 126) /\ ~(Lower(x) \/ Upper(x) \/ Digit(x))
      [] n = "space" -> x = 32 \/ Between(x, 9, 13)
      [] n = "xdigit" -> Digit(x) \/ Between(x, 65, 70) \/ Between(x, 97, 102)
      [] n = "lower" -> Lower(x)
      [] n = "upper" -> Upper(x)
(* a '-' between two characters is the range of them, elsewhere it is itself *)
InSet(s, x) ==
    \E k \in 1..Len(s) :
        IF s[k] = 45 /\ 1 < k /\ k < Len(s) THEN Between(x, s[k - 1], s[k + 1]) ELSE x = s[k]
DigitOf(x) == IF Digit(x) THEN x - 48 ELSE IF Between(x, 97, 102) THEN x - 87 ELSE IF Between(x, 65, 70) THEN x - 55 ELSE 99

(*-- the types of attributes --*)
IsCont(t) == t[1] \in {"str", "arr"}
Elem(t) == IF t[1] = "str" THEN <<"c">> ELSE t[2]
Size(t) == IF t[1] = "str" THEN t[2] ELSE t[3]
ContOf(t, n) == IF t = <<"c">> THEN <<"str", n>> ELSE <<"arr", t, n>>
SameCont(t, u) == IsCont(t) /\ IsCont(u) /\ Elem(t) = Elem(u)
ContElem(t, u) == IsCont(t) /\ Elem(t) = u
IsTup(t) == t[1] = "tup"
IsNone(t) == t = NoneT
Resize(t, n) == IF t[1] = "str" THEN <<"str", n>> ELSE <<"arr", t[2], n>>

SeqT(t, u) ==
    CASE SameCont(t, u) -> Resize(t, Size(t) + Size(u))
      [] ContElem(t, u) -> Resize(t, Size(t) + 1)
      [] ContElem(u, t) -> Resize(u, Size(u) + 1)
      [] IsTup(t) /\ IsTup(u) -> <<"tup", t[2] \o u[2]>>
      [] IsTup(t) /\ ~IsTup(u) /\ ~IsNone(u) -> <<"tup", Append(t[2], u)>>
      [] IsTup(u) /\ ~IsTup(t) /\ ~IsNone(t) -> <<"tup", <<t>> \o u[2]>>
      [] IsNone(u) -> t
      [] IsNone(t) -> u
      [] t = u -> ContOf(t, 2)
      [] OTHER -> <<"tup", <<t, u>>>>
AltT(t, u) ==
    CASE SameCont(t, u) -> IF Size(t) >= Size(u) THEN t ELSE u
      [] ContElem(t, u) -> Resize(t, Max2(Size(t), 1))
      [] ContElem(u, t) -> Resize(u, Max2(Size(u), 1))
      [] IsTup(t) /\ IsTup(u) -> IF Len(t[2]) >= Len(u[2]) THEN t ELSE u
      [] IsNone(t) /\ IsNone(u) -> t
      [] IsNone(u) -> ContOf(t, 1)
      [] IsNone(t) -> ContOf(u, 1)
      [] t = u -> t
      [] OTHER -> <<"var", t, u>>
TimesT(n, t) ==
    CASE IsNone(t) -> t
      [] IsCont(t) -> Resize(t, n * Size(t))
      [] OTHER -> ContOf(t, n)
ActT(f, t) == CASE f = "dbl" -> <<"i", 64, 1>> [] f = "len" -> <<"i", 32, 1>> [] f = "up" -> <<"c">>

RECURSIVE Type(_)
Type(g) ==
    CASE g[1] \in {"chr", "lit", "clsn", "eps", "eoi", "eol", "not", "and", "omit", "opt"} -> NoneT
      [] g[1] \in {"any", "char", "range", "set", "cls"} -> <<"c">>
      [] g[1] = "str" -> <<"str", Len(g[2])>>
      [] g[1] = "num" -> <<"i", g[6], g[2]>>
      [] g[1] = "seq" -> SeqT(Type(g[2]), Type(g[3]))
      [] g[1] = "alt" -> AltT(Type(g[2]), Type(g[3]))
      [] g[1] = "minus" -> Type(g[2])
      [] g[1] \in {"star", "plus", "list"} -> IF g[2][1] = "lim" THEN TimesT(g[2][2], Type(g[2])) ELSE NoneT
      [] g[1] = "rep" -> IF g[3][1] = "lim" THEN TimesT(g[3][2], Type(g[3])) ELSE NoneT
      [] g[1] = "lim" -> Type(g[4])
      [] g[1] = "repl" -> g[2]
      [] g[1] = "arr" -> <<"arr", Type(g[2]), 1>>
      [] g[1] = "tup" -> <<"tup", <<Type(g[2])>>>>
      [] g[1] = "act" -> ActT(g[2], Type(g[3]))

RECURSIVE Zero(_)
Zero(t) ==
    CASE t[1] \in {"c", "i"} -> 0
      [] t[1] \in {"u", "str"} -> <<>>
      [] t[1] = "arr" -> [k \in 1..t[3] |-> Zero(t[2])]
      [] t[1] = "tup" -> [k \in 1..Len(t[2]) |-> Zero(t[2][k])]
      [] t[1] = "var" -> <<0, Zero(t[2])>>

(*-- the values of attributes --*)
(* an array always holds all its elements: those not given are value-made *)
Pad(t, v) == IF t[1] = "str" THEN v ELSE [k \in 1..t[3] |-> IF k <= Len(v) THEN v[k] ELSE Zero(t[2])]
SeqV(t, a, u, b) ==
    CASE SameCont(t, u) -> Pad(SeqT(t, u), a \o b)
      [] ContElem(t, u) -> Append(a, b)
      [] ContElem(u, t) -> <<a>> \o b
      [] IsTup(t) /\ IsTup(u) -> a \o b
      [] IsTup(t) /\ ~IsTup(u) /\ ~IsNone(u) -> Append(a, b)
      [] IsTup(u) /\ ~IsTup(t) /\ ~IsNone(t) -> <<a>> \o b
      [] IsNone(u) -> a
      [] IsNone(t) -> b
      [] OTHER -> <<a, b>>
(* the attribute a of the side x (1 or 2) that matched *)
AltV(t, u, x, a) ==
    LET r == AltT(t, u)
        own == IF x = 1 THEN t ELSE u
    IN CASE SameCont(t, u) -> Pad(r, a)
         [] ContElem(t, u) \/ ContElem(u, t) -> Pad(r, IF (x = 1) = ContElem(t, u) THEN a ELSE <<a>>)
         [] IsTup(t) /\ IsTup(u) -> [k \in 1..Len(r[2]) |-> IF k <= Len(a) THEN a[k] ELSE Zero(r[2][k])]
         [] IsNone(t) /\ IsNone(u) -> a
         [] IsNone(t) \/ IsNone(u) -> Pad(r, IF IsNone(own) THEN <<>> ELSE <<a>>)
         [] t = u -> a
         [] OTHER -> <<x - 1, a>>
RECURSIVE Joined(_)
Joined(vs) == IF vs = <<>> THEN <<>> ELSE Head(vs) \o Joined(Tail(vs))
(* of the elements matched: the first n, or the last n *)
Kept(n, cat, vs) == IF Len(vs) <= n THEN vs ELSE IF cat = "circular" THEN SubSeq(vs, Len(vs) - n + 1, Len(vs)) ELSE SubSeq(vs, 1, n)
TimesV(n, t, vs) ==
    CASE IsNone(t) -> <<>>
      [] IsCont(t) -> Pad(TimesT(n, t), Joined(vs))
      [] OTHER -> Pad(TimesT(n, t), vs)
ActV(f, a) == CASE f = "dbl" -> a * 2 [] f = "len" -> Len(a) [] f = "up" -> IF (a \div 32) % 2 = 1 THEN a - 32 ELSE a + 32

RECURSIVE Value(_, _, _, _, _)
Value(s, p, e, radix, v) == IF p = e THEN v ELSE Value(s, p + 1, e, radix, v * radix + DigitOf(s[p + 1]))
RECURSIVE Digits(_, _, _, _)
Digits(s, p, radix, most) == IF p = Len(s) \/ most = 0 \/ DigitOf(s[p + 1]) >= radix THEN p ELSE Digits(s, p + 1, radix, most - 1)
Pow2(n) == IF n = 8 THEN 256 ELSE 65536
(* as an integer of so many bits *)
Fit(v, bits, sg) ==
    IF bits > 16 THEN v
    ELSE LET m == v % Pow2(bits) IN IF sg = 1 /\ m >= Pow2(bits) \div 2 THEN m - Pow2(bits) ELSE m

(*-- matching: [ok, e, a]: matched?, the end, the attribute --*)
No(p) == [ok |-> FALSE, e |-> p, a |-> <<>>]
Yes(e, a) == [ok |-> TRUE, e |-> e, a |-> a]
StartsWith(s, p, w) == p + Len(w) <= Len(s) /\ \A k \in 1..Len(w) : s[p + k] = w[k]
One(s, p, test(_), keep) == IF p < Len(s) /\ test(s[p + 1]) THEN Yes(p + 1, IF keep THEN s[p + 1] ELSE <<>>) ELSE No(p)
Num(g, s, p) ==
    LET signs == g[2] = 1 /\ p < Len(s) /\ s[p + 1] \in {43, 45}
        from == IF signs THEN p + 1 ELSE p
        to == Digits(s, from, g[3], IF g[5] = 0 THEN 1000 ELSE g[5])
        v == Value(s, from, to, g[3], 0)
    IN IF to - from < g[4] THEN No(p)
       ELSE Yes(to, Fit(IF signs /\ s[p + 1] = 45 THEN 0 - v ELSE v, g[6], g[2]))

RECURSIVE Match(_, _, _)
RECURSIVE Many(_, _, _, _, _)
RECURSIVE ListRest(_, _, _, _, _, _)
(* g again and again from p (at most `most` times), the attributes gathered in vs *)
Many(g, s, p, most, vs) ==
    IF Len(vs) = most THEN [e |-> p, vs |-> vs]
    ELSE LET r == Match(g, s, p) IN IF r.ok THEN Many(g, s, r.e, most, Append(vs, r.a)) ELSE [e |-> p, vs |-> vs]
ListRest(g, sep, s, p, most, vs) ==
    IF Len(vs) = most THEN [e |-> p, vs |-> vs]
    ELSE LET q == Match(sep, s, p) IN
         IF ~q.ok THEN [e |-> p, vs |-> vs]
         ELSE LET r == Match(g, s, q.e) IN
              IF r.ok THEN ListRest(g, sep, s, r.e, most, Append(vs, r.a)) ELSE [e |-> p, vs |-> vs]
Endless == 100000
MostOf(g) == IF g[1] = "lim" /\ g[3] = "stopover" THEN g[2] ELSE Endless
Gathered(g, vs) == IF g[1] = "lim" THEN TimesV(g[2], Type(g), Kept(g[2], g[3], vs)) ELSE <<>>
Match(g, s, p) ==
    CASE g[1] = "chr" -> LET Is(x) == x = g[2] IN One(s, p, Is, FALSE)
      [] g[1] = "lit" -> IF StartsWith(s, p, g[2]) THEN Yes(p + Len(g[2]), <<>>) ELSE No(p)
      [] g[1] = "str" -> IF StartsWith(s, p, g[2]) THEN Yes(p + Len(g[2]), g[2]) ELSE No(p)
      [] g[1] = "any" -> LET Is(x) == TRUE IN One(s, p, Is, TRUE)
      [] g[1] = "char" -> LET Is(x) == x = g[2] IN One(s, p, Is, TRUE)
      [] g[1] = "range" -> LET Is(x) == Between(x, g[2], g[3]) IN One(s, p, Is, TRUE)
      [] g[1] = "set" -> LET Is(x) == InSet(g[2], x) IN One(s, p, Is, TRUE)
      [] g[1] = "cls" -> LET Is(x) == InClass(g[2], x) IN One(s, p, Is, TRUE)
      [] g[1] = "clsn" -> LET Is(x) == InClass(g[2], x) IN One(s, p, Is, FALSE)
      [] g[1] = "num" -> Num(g, s, p)
      [] g[1] = "eps" -> Yes(p, <<>>)
      [] g[1] = "eoi" -> IF p = Len(s) THEN Yes(p, <<>>) ELSE No(p)
      [] g[1] = "eol" -> IF StartsWith(s, p, <<13, 10>>) THEN Yes(p + 2, <<>>)
                         ELSE IF StartsWith(s, p, <<13>>) \/ StartsWith(s, p, <<10>>) THEN Yes(p + 1, <<>>) ELSE No(p)
      [] g[1] = "seq" -> LET a == Match(g[2], s, p) IN
                         IF ~a.ok THEN No(p)
                         ELSE LET b == Match(g[3], s, a.e) IN
                              IF b.ok THEN Yes(b.e, SeqV(Type(g[2]), a.a, Type(g[3]), b.a)) ELSE No(p)
      [] g[1] = "alt" -> LET a == Match(g[2], s, p) IN
                         IF a.ok THEN Yes(a.e, AltV(Type(g[2]), Type(g[3]), 1, a.a))
                         ELSE LET b == Match(g[3], s, p) IN
                              IF b.ok THEN Yes(b.e, AltV(Type(g[2]), Type(g[3]), 2, b.a)) ELSE No(p)
      [] g[1] = "minus" -> IF Match(g[3], s, p).ok THEN No(p) ELSE Match(g[2], s, p)
      [] g[1] = "not" -> IF Match(g[2], s, p).ok THEN No(p) ELSE Yes(p, <<>>)
      [] g[1] = "and" -> IF Match(g[2], s, p).ok THEN Yes(p, <<>>) ELSE No(p)
      [] g[1] = "opt" -> LET a == Match(g[2], s, p) IN IF a.ok THEN Yes(a.e, <<>>) ELSE Yes(p, <<>>)
      [] g[1] = "star" -> LET m == Many(g[2], s, p, MostOf(g[2]), <<>>) IN Yes(m.e, Gathered(g[2], m.vs))
      [] g[1] = "plus" -> LET m == Many(g[2], s, p, MostOf(g[2]), <<>>) IN
                          IF m.vs = <<>> THEN No(p) ELSE Yes(m.e, Gathered(g[2], m.vs))
      [] g[1] = "list" -> LET a == Match(g[2], s, p) IN
                          IF ~a.ok THEN No(p)
                          ELSE LET m == ListRest(g[2], g[3], s, a.e, MostOf(g[2]), <<a.a>>) IN Yes(m.e, Gathered(g[2], m.vs))
      [] g[1] = "rep" -> \* repeat[lim<N>(p)]: N times; repeat(n)[lim<N>(p)]: n to N times; repeat(n)[p]: at least n times; repeat[p]: any number of times
                         LET limited == g[3][1] = "lim"
                             m == Many(g[3], s, p, IF limited THEN g[3][2] ELSE Endless, <<>>)
                             least == IF g[2] >= 0 THEN g[2] ELSE IF limited THEN g[3][2] ELSE 0
                         IN IF Len(m.vs) < least THEN No(p) ELSE Yes(m.e, Gathered(g[3], m.vs))
      [] g[1] = "lim" -> Match(g[4], s, p)
      [] g[1] = "omit" -> LET a == Match(g[2], s, p) IN IF a.ok THEN Yes(a.e, <<>>) ELSE No(p)
      [] g[1] = "repl" -> LET a == Match(g[4], s, p) IN IF a.ok THEN Yes(a.e, g[3]) ELSE No(p)
      [] g[1] \in {"arr", "tup"} -> LET a == Match(g[2], s, p) IN IF a.ok THEN Yes(a.e, <<a.a>>) ELSE No(p)
      [] g[1] = "act" -> LET a == Match(g[3], s, p) IN IF a.ok THEN Yes(a.e, ActV(g[2], a.a)) ELSE No(p)
=============================================================================
