------------------------------ MODULE Trace_C32 ------------------------------
EXTENDS TraceBase, Uuid
B01(b) == IF b THEN 1 ELSE 0
Each(s, v) == \A k \in 1..Len(s) : s[k] = v
ParseOK(e) == LET r == Parse(e.t) IN \A k \in 1..Len(e.ok) : e.ok[k] = B01(r.ok) /\ (r.ok => e.u[k] = r.u)
ReadOK(e) == LET r == StreamRead(e.t) IN e.ok = r.ok /\ e.u = (IF r.ok THEN r.u ELSE e.old) /\ (r.ok => e.pos = r.used)
ReadStrictOK(e) == LET t == e.t IN
    IF Len(t) >= 36 /\ Parse(SubSeq(t, 1, 36)).ok THEN e.ok /\ e.u = Parse(SubSeq(t, 1, 36)).u /\ e.pos = 36 ELSE ~e.ok /\ e.u = e.old
CmpOK(e) == LET k == Cmp(e.a, e.b) IN
    /\ e.r = <<B01(k = 0), B01(k # 0), B01(k < 0), B01(k > 0), B01(k <= 0), B01(k >= 0)>>
    /\ (k = 0 => Each(e.h, 1)) /\ e.hr
    /\ e.s1 = <<e.b, e.a>> /\ e.s2 = <<e.a, e.b>>
Back(s) == [i \in 1..16 |-> s[17 - i]]
Accept(e) ==
    CASE e.o = "parse" -> ParseOK(e)
      [] e.o = "format" -> Each(e.t, Text(e.u, TRUE, FALSE))
      [] e.o = "back" -> Each(e.r, 1)
      [] e.o = "marks" -> e.variant = Variant(e.u) /\ e.version = Version(e.u) /\ e.nil = (e.u = NilUuid)
      [] e.o = "nil" -> Each(e.u, NilUuid)
      [] e.o = "spaces" -> e.u = <<NsDns, NsUrl, NsOid, NsX500>>
      [] e.o = "write" -> e.kept /\ e.t = StreamText(e.u, e.w, e.f, e.adj, e.up)
      [] e.o = "read" -> ReadOK(e)
      [] e.o = "readns" -> ReadStrictOK(e)
      [] e.o = "named" -> Each(e.md, Named("md5", e.ns, e.name)) /\ Each(e.sh, Named("sha1", e.ns, e.name))
      [] e.o \in {"wellknown"} -> \A k \in 1..Len(e.which) : e.md[k] = Named("md5", Namespace(e.which[k]), e.name) /\ e.sh[k] = Named("sha1", Namespace(e.which[k]), e.name)
      [] e.o = "lit" -> Each(e.md, Named("md5", Namespace(e.which), e.name)) /\ Each(e.sh, Named("sha1", Namespace(e.which), e.name))
      [] e.o = "random" -> Each(e.u, FromDraws(e.w))
      [] e.o = "same" -> Each(e.u, e.u[1]) /\ Version(e.u[1]) = 4 /\ Variant(e.u[1]) = "rfc"
      [] e.o = "cmp" -> CmpOK(e)
      [] e.o = "view" -> Each(e.fwd, e.a) /\ Each(e.rev, Back(e.a)) /\ e.ends = <<e.a[1], e.a[1], e.a[16], e.a[16]>> /\ e.sz = <<16, 16, 0, 16>> /\ Each(e.out, 1) /\ e.tup = <<e.a[1], e.a[8], e.a[16]>>
      [] e.o = "edit" -> Each(e.full, [i \in 1..16 |-> e.v]) /\ Each(e.one, [e.a EXCEPT ![e.k] = e.v])
      [] OTHER -> FALSE
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
