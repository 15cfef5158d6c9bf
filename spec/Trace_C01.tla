------------------------------ MODULE Trace_C01 ------------------------------
EXTENDS TraceBase, SeqSearch

Position(e, k) == e.r = k
                  /\ ("fe" \in DOMAIN e => e.fe = <<k, Len(e.a)>>)
                  /\ ("bf" \in DOMAIN e => e.bf = <<0, k>>)

Accept(e) ==
    LET U(x) == UPred(e.u, x)
        NU(x) == ~U(x)
        EqV(x) == x = e.v
    IN
    CASE e.o = "all_of" -> e.r = AllOf(e.a, U)
      [] e.o = "any_of" -> e.r = AnyOf(e.a, U)
      [] e.o = "none_of" -> e.r = ~AnyOf(e.a, U)
      [] e.o = "one_of" -> e.r = OneOf(e.a, U)
      [] e.o = "find_if" -> Position(e, FindIf(e.a, U))
      [] e.o = "find_if_not" -> Position(e, FindIf(e.a, NU))
      [] e.o = "count_if" -> e.r = CountIn(e.a, U)
      [] e.o = "all_of_equal" -> e.r = AllOf(e.a, EqV)
      [] e.o = "any_of_equal" -> e.r = AnyOf(e.a, EqV)
      [] e.o = "none_of_equal" -> e.r = ~AnyOf(e.a, EqV)
      [] e.o = "one_of_equal" -> e.r = OneOf(e.a, EqV)
      [] e.o = "find" -> Position(e, FindIf(e.a, EqV))
      [] e.o = "count" -> e.r = CountIn(e.a, EqV)
      [] e.o = "search_n" -> Position(e, SearchN(e.a, e.n, e.v, e.p))
      [] e.o = "adjacent_find" -> Position(e, AdjacentFind(e.a, e.p))
      [] e.o = "search" -> e.r = Search(e.a, e.b, e.p)
      [] e.o = "find_end" -> e.r = FindEnd(e.a, e.b, e.p)
      [] e.o = "find_first_of" -> e.r = FindFirstOf(e.a, e.b, e.p)
      [] e.o \in {"mismatch", "mismatch3"} -> LET k == Common(e.a, e.b, e.p) IN e.r = <<k, k>>
      [] e.o = "equal" -> e.r = Equal(e.a, e.b, e.p)
      [] e.o = "equal3" -> e.r = Equal(e.a, Prefix(e.b, Len(e.a)), e.p)
      [] e.o = "is_permutation" -> e.r = IsPermutation(e.a, e.b, e.p)
      [] e.o = "is_permutation3" -> e.r = IsPermutation(e.a, Prefix(e.b, Len(e.a)), e.p)
      [] e.o = "lexicographical_compare" -> e.r = (Tristate(e.a, e.b, e.c) = -1)
      [] e.o = "tristate" -> e.r = Tristate(e.a, e.b, e.c)
      [] e.o = "tristate_delim" -> e.r = Tristate(CutAt(e.a, e.d, e.c), CutAt(e.b, e.e, e.c), e.c)
      [] e.o = "min_element" -> Position(e, MinElement(e.a, e.c))
      [] e.o = "max_element" -> Position(e, MaxElement(e.a, e.c))
      [] e.o = "minmax_element" -> e.r = <<MinElement(e.a, e.c), LastMaxElement(e.a, e.c)>>
      [] e.o = "min" -> e.r = e.a[MinElement(e.a, e.c) + 1]
      [] e.o = "max" -> e.r = e.a[MaxElement(e.a, e.c) + 1]
      [] e.o = "minmax" -> e.r = <<e.a[MinElement(e.a, e.c) + 1], e.a[LastMaxElement(e.a, e.c) + 1]>>
      [] e.o = "clamp" -> e.r = Clamp(e.v, e.l, e.h, e.c)
      [] e.o = "abs_diff" -> e.r = Max2(e.x, e.y) - Min2(e.x, e.y)
      [] e.o = "is_increasing" -> LET R(x, y) == x <= y IN e.r = Monotone(e.a, R)
      [] e.o = "is_decreasing" -> LET R(x, y) == x >= y IN e.r = Monotone(e.a, R)
      [] e.o = "is_strictly_increasing" -> LET R(x, y) == x < y IN e.r = Monotone(e.a, R)
      [] e.o = "is_strictly_decreasing" -> LET R(x, y) == x > y IN e.r = Monotone(e.a, R)
      [] e.o \in {"fold_while", "fold_until"} ->
            LET F(x, y) == x * 2 + y
                P(x) == x < 9
            IN e.r = FoldWhile(e.a, e.v, F, P)

TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
