------------------------------ MODULE Trace_C25 ------------------------------
(* Histories of three engines of one kind.                                    *)
EXTENDS TraceHist, Engines
I(e) == e.i + 1
J(e) == e.j + 1
Cfg3(g) == [g |-> g, e |-> <<Default(g), Default(g), Default(g)>>]
Put(st, j, x) == [st EXCEPT !.e[j] = x]
Nxt(st, e) ==
  CASE e.o = "cfg" -> Cfg3(e.g)
    [] e.o = "def" -> Put(st, I(e), Default(st.g))
    [] e.o = "new" -> Put(st, I(e), New(st.g, e.x))
    [] e.o = "two" -> Put(st, I(e), <<New(st.g.b1, e.x), New(st.g.b2, e.y)>>)
    [] e.o = "seq" -> Put(st, I(e), NewSeq(st.g, e.v))
    [] e.o = "it" -> Put(st, I(e), NewIt(st.g, e.v))
    [] e.o = "disc" -> Put(st, J(e), Discard(st.g, st.e[I(e)], e.n))
    [] e.o \in {"copy", "load"} -> Put(st, J(e), st.e[I(e)])
    [] e.o = "run" -> Put(st, J(e), Run(st.g, st.e[I(e)], e.n, <<>>)[2])
    [] OTHER -> st
Ok(st, e) ==
  CASE e.o = "cfg" -> e.lo = EMin(e.g) /\ e.hi = EMax(e.g)
    [] e.o = "run" -> Len(e.r) = e.n /\ Run(st.g, st.e[I(e)], e.n, <<>>)[1] = e.r
    [] e.o = "eq" -> e.eq = (st.e[I(e)] = st.e[J(e)]) /\ e.ne = ~e.eq
    [] e.o = "save" -> e.t = Text(st.g, st.e[I(e)])
    [] e.o = "load" -> e.good
    [] OTHER -> TRUE
TraceInit == HistInit([g |-> [k |-> "none"], e |-> <<>>])
TraceNext == PickHistory \/ Consume(Ok, Nxt)
=============================================================================
