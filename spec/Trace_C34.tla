------------------------------ MODULE Trace_C34 ------------------------------
EXTENDS TraceBase, TypeLists
B01(b) == IF b THEN 1 ELSE 0
Each(s, v) == \A k \in 1..Len(s) : s[k] = v
Map(s, F) == [k \in 1..Len(s) |-> F[k]]
\* The type of the elements a container of values converts its elements to; others keep the type of each element.
ValueType == <<-1, -1, -1, 0, 0, 1, 4, 3, -1, -1, -1>>
Conv(kind, s) == [k \in 1..Len(s) |-> IF ValueType[kind] < 0 THEN s[k] ELSE Val(s[k]) + 100 * ValueType[kind]]
\* inc_ makes an int of every element.
IncAll(s) == [k \in 1..Len(s) |-> Val(s[k]) + 1]
OpOK(e) == LET a == e.a
               x == e.x
               is(r) == e.rk = e.k /\ e.r = Conv(e.k, r) IN
    CASE e.f = "info" -> Each(e.sz, Len(a)) /\ e.emp = (a = <<>>) /\ e.at = a /\ e.te = a
      [] e.f = "ends" -> e.r = <<a[1], a[Len(a)]>>
      [] e.f = "map" -> is(IncAll(a))
      [] e.f = "pop_front" -> is(PopFront(a))
      [] e.f = "pop_back" -> is(PopBack(a))
      [] e.f = "push_back" -> is(PushBack(a, x))
      [] e.f = "push_front" -> is(PushFront(a, x))
      [] e.f = "rebind" -> is(x)
      [] e.f = "assign" -> is(x)
      [] e.f \in {"append_back", "cat"} -> is(a \o Concat(x))
      [] e.f = "append_front" -> is(Concat(x) \o a)
Codes(s) == {s[k] : k \in 1..Len(s)}
Tables(e, P) == LET s == e.s IN
    /\ e.find = <<IndexOf(s, P), B01(AnyOf(s, P))>> /\ e.count = CountOf(s, P) /\ e.cont = AnyOf(s, P)
    /\ e.q = <<B01(AllOf(s, P)), B01(AnyOf(s, P)), B01(NoneOf(s, P)), B01(OneOf(s, P))>>
Neg(s) == [k \in 1..Len(s) |-> -s[k]]
Quot(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
\* the text up to the first NUL
ToNul(s) == LET z == {k \in 1..Len(s) : s[k] = 0} IN IF z = {} THEN s ELSE SubSeq(s, 1, MinOf(z) - 1)
IterOK(e) == LET n == Len(e.s) IN
    /\ e.at = e.s /\ e.back = e.s /\ e.d = n /\ Each(e.one, 1)
    /\ e.ds = Iota(n) /\ e.de = [k \in 1..n |-> n - k + 1]
Accept(e) ==
    CASE e.o = "range" -> e.r = Range_(e.a, e.b, e.s) /\ e.n = Len(e.r) /\ e.ok
      [] e.o = "huge" -> e.r
      [] e.o = "iota" -> Each(e.r, Iota(e.n)) /\ e.ok
      [] e.o = "copies" -> Each(e.r, Copies(e.x, e.n)) /\ e.u = Copies(IF e.x < 0 THEN 0 ELSE e.x, e.n) /\ e.ok
      [] e.o = "elems" -> e.g = e.a \o e.a \o e.a /\ e.h = e.g /\ Each(e.sz, Len(e.a)) /\ Each(e.t, e.a) /\ e.ok
      [] e.o = "op" -> OpOK(e)
      [] e.o = "same" -> Tables(e, [c_ \in Codes(e.s) |-> c_ = e.x])
      [] e.o = "pred" -> Tables(e, [c_ \in Codes(e.s) |-> Even(c_)])
      [] e.o = "tpp" -> (CASE e.f = "quant" -> LET P == [b \in {0, 1} |-> b = 1]
                                                   q == <<B01(AllOf(e.s, P)), B01(AnyOf(e.s, P)), B01(NoneOf(e.s, P)), B01(OneOf(e.s, P))>> IN e.r = q \o q
                           [] e.f = "extremes" -> e.r = <<MaxVal(e.s), MinVal(e.s), MaxVal(e.s), MinVal(e.s)>>)
      [] e.o = "fold" -> e.r = Fold(e.f, e.x, e.s) /\ e.acc = e.r /\ e.ps = PartialSum(e.f, e.s)
      [] e.o = "map1" -> Each(e.r, Neg(e.s)) /\ e.p = e.s
      [] e.o = "zip" -> e.r = Zip(e.f, e.s, e.t)
      [] e.o = "bound" -> Each(e.lo, Lower(e.s, e.x, e.less)) /\ Each(e.up, Upper(e.s, e.x, e.less))
      [] e.o = "cmp" -> LET a == e.a
                            b == e.b IN
            /\ e.r = <<B01(a < b), B01(a > b), B01(a <= b), B01(a >= b), B01(a = b), B01(a # b)>> /\ e.q = e.r
            /\ e.v = <<a + b, a - b, a * b, -a, a>> /\ e.w = e.v /\ e.y = e.v
      [] e.o = "dvd" -> LET q == Quot(e.a, e.b)
                            m == e.a - q * e.b IN e.r = <<q, m, q, m, q, m>>
      [] e.o = "iter" -> IterOK(e)
      [] e.o = "sfind" -> e.i = IndexOf(e.s, [c_ \in Codes(e.s) |-> c_ = e.x]) /\ e.p = IndexOf(e.s, [c_ \in Codes(e.s) |-> Even(c_)])
      [] e.o = "cstr" -> Each(e.r, ToNul(e.s)) /\ e.sz[1] = Len(ToNul(e.s)) /\ e.sz[2] = e.sz[1]
      [] e.o = "text" -> e.r = e.s /\ e.k = 8
      [] e.o = "arr" -> Each(e.r, e.s) /\ Each(e.sz, Len(e.s)) /\ e.ok
      [] e.o = "alias" -> e.r = <<<<97, 98>>, <<97, 12354>>, <<97, 12354>>, <<97, 128512>>>>
TraceNext == PickHistory \/ Consume(Accept)
===============================================================================
