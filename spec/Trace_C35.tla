------------------------------ MODULE Trace_C35 ------------------------------
EXTENDS TraceBase, FunctionObjects
B01(b) == IF b THEN 1 ELSE 0
All(r, x) == \A i \in 1..Len(r) : r[i] = x
Arguments(e) == [i \in 1..Len(e.args) |-> [v |-> e.args[i], cat |-> e.cats[i], who |-> IF e.cats[i] = "r" THEN 0 ELSE i]]
Plain(log) == [i \in 1..Len(log) |-> [id |-> log[i].id, a |-> Values(log[i].a)]]
\* the fourth argument of the third call is the object of slot 4
BindOK(e) ==
    LET as == Arguments(e)
        want == Calls(1, e.bs, e.cst, as)
        n == Len(want)
    IN /\ Len(e.log) = n
       /\ IF e.m = "plain" THEN Plain(e.log) = Plain(want)
          ELSE e.log[n] = want[n] /\ SameBag(SubSeq(e.log, 1, n - 1), SubSeq(want, 1, n - 1))
       /\ e.r = (IF e.m = "void" THEN -1 ELSE Result(1, e.bs, e.cst, as))
WrapOK(e) ==
    LET k == Code(e.id, e.want)
        m == Mod0(k, 3)
    IN /\ Len(e.log) = 1 /\ e.log[1].id = e.id /\ Values(e.log[1].a) = e.want
       /\ All(e.r, CASE e.kind = 0 -> k [] e.kind = 1 -> B01(m # 1) [] OTHER -> m)
Accept(e) ==
    CASE e.o = "typed"  -> All(e.r, Typed(e.f, e.t, e.a, e.b))
      [] e.o = "free"   -> All(e.r, Operator(e.f, e.a, e.b))
      [] e.o = "assign" -> e.same /\ All(e.r, Wrap(e.t, Operator(e.f, e.a, e.b)))
      [] e.o = "step"   -> e.same /\ All(e.inc, Wrap(e.t, e.a + 1)) /\ All(e.dec, Wrap(e.t, e.a - 1)) /\ All(e.old, e.a)
      [] e.o = "access" -> e.same /\ e.max = (IF e.i > e.j THEN e.i ELSE e.j) /\ e.call = e.i * 10 + e.j /\ e.dif = e.i - e.j
      [] e.o = "bind"   -> BindOK(e)
      [] e.o = "wrap"   -> WrapOK(e)
      [] e.o = "equiv"  -> All(e.r, B01(~e.lt /\ ~e.gt)) /\ All(e.dflt, B01(e.a = e.b))
      [] e.o = "alias"  -> e.same /\ All(e.x, e.a + 5) /\ All(e.y, e.b + 2)
      [] e.o = "data"   -> e.same /\ e.r = <<e.b + 1, e.a, e.b>>
      [] e.o = "hash"   -> e.same
      [] e.o = "hsame"  -> e.same
      [] OTHER -> FALSE
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
