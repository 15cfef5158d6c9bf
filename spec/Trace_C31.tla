------------------------------ MODULE Trace_C31 ------------------------------
(* One message fed to every checksum, by the functional and by the mutating   *)
(* interface, with readings in between.                                       *)
EXTENDS TraceHist, Checksums
Empty == [md |-> Fresh("md5"), sh |-> Fresh("sha1"), sum |-> <<0, 0>>, x |-> 0]
Nxt(st, e) ==
    CASE e.o = "bytes" -> [md |-> Take("md5", st.md, e.b), sh |-> Absorb("sha1", st.sh, e.b), sum |-> SumW(st.sum, e.b), x |-> XorB(st.x, e.b)]
      [] e.o = "bits" -> [st EXCEPT !.md = AbsorbBits("md5", @, e.v)]
      [] e.o = "reset" -> Empty
      [] e.o = "resetto" -> [Empty EXCEPT !.sum = e.v, !.x = e.v[2] % 256]
      [] OTHER -> st
SumsOK(e, w, x) == e.s32 = w /\ e.s16 = w[2] /\ e.s8 = w[2] % 256 /\ e.x = x
Ok(st, e) ==
    CASE e.o = "read" -> /\ (e.md # <<>> => LET d == Digest("md5", st.md) IN \A k \in 1..Len(e.md) : e.md[k] = d)
                         /\ (e.sh # <<>> => LET d == Digest("sha1", st.sh) IN \A k \in 1..Len(e.sh) : e.sh[k] = d)
      [] e.o = "sums" -> \A k \in 1..Len(e.r) : SumsOK(e.r[k], st.sum, st.x)
      [] e.o = "once" -> LET m == DigestOf("md5", e.b) h == DigestOf("sha1", e.b) IN (\A k \in 1..Len(e.md) : e.md[k] = m) /\ (\A k \in 1..Len(e.sh) : e.sh[k] = h) /\ SumsOK(e.r, SumW(<<0, 0>>, e.b), XorB(0, e.b))
      [] OTHER -> TRUE
TraceInit == HistInit(Empty)
TraceNext == PickHistory \/ Consume(Ok, Nxt)
=============================================================================
