------------------------------- MODULE MC_Peg -------------------------------
(* The laws of parsing expressions, for all small grammars on all short texts:*)
(* every operator is what its definition by the others says, matching only   *)
(* looks at what follows the position, and an attribute has its type.        *)
EXTENDS Peg, FiniteSets, TLC
CONSTANTS LEN, DEPTH
A == 97
B == 98
Base == { <<"chr", A>>, <<"any">>, <<"char", A>>, <<"set", <<A, 45, B>>>>, <<"str", <<A, B>>>>, <<"lit", <<A>>>>, <<"eps">>, <<"eoi">> }
RECURSIVE Nullable(_)
Nullable(g) ==
    CASE g[1] \in {"eps", "eoi", "not", "and", "opt", "star"} -> TRUE
      [] g[1] = "seq" -> Nullable(g[2]) /\ Nullable(g[3])
      [] g[1] = "alt" -> Nullable(g[2]) \/ Nullable(g[3])
      [] g[1] \in {"minus", "plus", "list", "omit", "arr", "tup"} -> Nullable(g[2])
      [] g[1] = "lim" -> Nullable(g[4])
      [] OTHER -> FALSE
(* alternatives of none and a container, or of a tuple and anything but a tuple, have no attribute *)
AltOk(t, u) == /\ IsTup(t) => IsTup(u) /\ Len(t[2]) = Len(u[2]) /\ t = u
               /\ IsTup(u) => IsTup(t)
               /\ (IsNone(t) => ~IsCont(u)) /\ (IsNone(u) => ~IsCont(t))
Step(S) ==
    { <<"seq", x, y>> : x \in S, y \in S }
    \cup { g \in { <<"alt", x, y>> : x \in S, y \in S } : AltOk(Type(g[2]), Type(g[3])) }
    \cup { <<"minus", x, y>> : x \in S, y \in S }
    \cup { <<f, x>> : f \in {"not", "and", "omit"}, x \in S }
    \cup { <<f, <<"lim", 2, c, x>>>> : f \in {"star", "plus"}, c \in {"discard", "circular", "stopover"}, x \in {x \in S : ~Nullable(x)} }
    \cup { <<f, <<"omit", x>>>> : f \in {"star", "plus"}, x \in {x \in S : ~Nullable(x)} }
    \cup { <<"list", <<"lim", 2, "discard", x>>, y>> : x \in {x \in S : ~Nullable(x)}, y \in {<<"chr", B>>, <<"any">>} }
    \cup { <<f, x>> : f \in {"arr", "tup"}, x \in {x \in S : ~IsNone(Type(x))} }
Grammars == IF DEPTH = 1 THEN Base \cup Step(Base) ELSE LET S == Base \cup Step({<<"chr", A>>, <<"any">>, <<"str", <<A, B>>>>, <<"eoi">>}) IN S \cup Step(S)
RECURSIVE TextsOf(_)
TextsOf(n) == IF n = 0 THEN {<<>>} ELSE LET T == TextsOf(n - 1) IN T \cup { Append(w, x) : w \in {w \in T : Len(w) = n - 1}, x \in {A, B} }

RECURSIVE Has(_, _)
Has(t, v) ==
    CASE t[1] = "u" -> v = <<>>
      [] t[1] \in {"c", "i"} -> v \in 0..255
      [] t[1] = "str" -> Len(v) <= t[2] /\ \A k \in 1..Len(v) : v[k] \in 0..255
      [] t[1] = "arr" -> Len(v) = t[3] /\ \A k \in 1..Len(v) : Has(t[2], v[k])
      [] t[1] = "tup" -> Len(v) = Len(t[2]) /\ \A k \in 1..Len(v) : Has(t[2][k], v[k])
      [] t[1] = "var" -> v[1] \in {0, 1} /\ Has(t[2 + v[1]], v[2])

VARIABLES g, s, p
Init == g \in Grammars /\ s \in TextsOf(LEN) /\ p = 0
Next == p < Len(s) /\ p' = p + 1 /\ UNCHANGED <<g, s>>
Same(x, y) == LET m == Match(x, s, p) n == Match(y, s, p) IN m.ok = n.ok /\ m.e = n.e
In == g[2]
Law ==
    LET m == Match(g, s, p)
        rest == Match(g, SubSeq(s, p + 1, Len(s)), 0)
    IN /\ m.e \in p..Len(s)
       /\ ~m.ok => m.e = p
       /\ rest.ok = m.ok /\ rest.e = m.e - p /\ (m.ok => rest.a = m.a)
       /\ m.ok => Has(Type(g), m.a)
       /\ g[1] \in {"star", "plus"} /\ ~(In[1] = "lim" /\ In[3] = "stopover") =>
            Same(g, IF g[1] = "plus" THEN <<"seq", <<"omit", In>>, <<"star", <<"omit", In>>>>>> ELSE <<"alt", <<"omit", <<"plus", In>>>>, <<"eps">>>>)
       /\ g[1] = "list" => Same(g, <<"seq", <<"omit", In>>, <<"star", <<"omit", <<"seq", <<"omit", g[3]>>, <<"omit", In>>>>>>>>>>)
       /\ g[1] = "minus" => Same(g, <<"seq", <<"not", g[3]>>, <<"omit", In>>>>)
       /\ g[1] = "and" => Same(g, <<"not", <<"not", In>>>>)
       /\ g[1] = "omit" => Same(g, In)
       /\ g[1] = "alt" => /\ Same(g, <<"alt", <<"omit", In>>, <<"seq", <<"not", In>>, <<"omit", g[3]>>>>>>)
                          /\ (m.ok /\ Match(In, s, p).ok => m.e = Match(In, s, p).e)
       /\ g[1] = "seq" => (m.ok <=> \E q \in p..Len(s) : LET a == Match(In, s, p) IN a.ok /\ a.e = q /\ Match(g[3], s, q).ok)
=============================================================================
