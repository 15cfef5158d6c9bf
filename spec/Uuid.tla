------------------------------- MODULE Uuid -------------------------------
(* A UUID is its 16 bytes.  Texts are sequences of character codes.           *)
EXTENDS Checksums
NilUuid == [k \in 1..16 |-> 0]
Variant(u) == LET b == u[9] IN IF b < 128 THEN "ncs" ELSE IF b < 192 THEN "rfc" ELSE IF b < 224 THEN "microsoft" ELSE "future"
Version(u) == LET v == u[7] \div 16 IN IF v \in 1..5 THEN v ELSE -1
WithVersion(b, v) == [b EXCEPT ![7] = (@ % 16) + 16 * v, ![9] = (@ % 64) + 128]
(* ---- order ---- *)
RECURSIVE CmpBytes(_, _, _)
CmpBytes(a, b, k) == IF k > 16 THEN 0 ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE CmpBytes(a, b, k + 1)
Cmp(a, b) == CmpBytes(a, b, 1)
(* ---- text ---- *)
Dash == 45  OpenBrace == 123  CloseBrace == 125
HexChar(d, upper) == IF d < 10 THEN 48 + d ELSE (IF upper THEN 65 ELSE 97) + d - 10
HexVal(ch) == CASE ch \in 48..57 -> ch - 48 [] ch \in 97..102 -> ch - 87 [] ch \in 65..70 -> ch - 55 [] OTHER -> -1
Pair(b, upper) == <<HexChar(b \div 16, upper), HexChar(b % 16, upper)>>
DashAfter == {4, 6, 8, 10}
RECURSIVE TextFrom(_, _, _, _)
TextFrom(u, k, dashes, upper) == IF k > 16 THEN <<>> ELSE Pair(u[k], upper) \o (IF dashes /\ k \in DashAfter THEN <<Dash>> ELSE <<>>) \o TextFrom(u, k + 1, dashes, upper)
Text(u, dashes, upper) == TextFrom(u, 1, dashes, upper)
(* the accepted texts: 32 hexadecimal digits in either case, with all four     *)
(* dashes or none, the whole in braces or not, and nothing after               *)
Bad == [ok |-> FALSE, u |-> NilUuid]
Strip(t) == IF Len(t) >= 2 /\ t[1] = OpenBrace /\ t[Len(t)] = CloseBrace THEN SubSeq(t, 2, Len(t) - 1) ELSE t
DashAt == {9, 14, 19, 24}
RECURSIVE NoDashes(_, _)
NoDashes(t, k) == IF k > Len(t) THEN <<>> ELSE (IF k \in DashAt THEN <<>> ELSE <<t[k]>>) \o NoDashes(t, k + 1)
FromDigits(d) == IF \A k \in 1..32 : HexVal(d[k]) >= 0 THEN [ok |-> TRUE, u |-> [k \in 1..16 |-> 16 * HexVal(d[2 * k - 1]) + HexVal(d[2 * k])]] ELSE Bad
Parse(t) ==
    LET b == Strip(t)
    IN IF Len(b) = 32 THEN FromDigits(b)
       ELSE IF Len(b) = 36 /\ (\A k \in DashAt : b[k] = Dash) THEN FromDigits(NoDashes(b, 1))
       ELSE Bad
(* ---- streams: the dashed form, white space before any character skipped ---- *)
IsBlank(ch) == ch \in 9..13 \cup {32}
RECURSIVE ReadFrom(_, _, _, _)
(* pos: next place of the 36 (1-based); acc: the digits; used: characters taken *)
ReadFrom(t, k, pos, acc) ==
    IF pos > 36 THEN [ok |-> TRUE, u |-> FromDigits(acc).u, used |-> k - 1]
    ELSE IF k > Len(t) THEN [ok |-> FALSE, u |-> NilUuid, used |-> k - 1]
    ELSE IF IsBlank(t[k]) THEN ReadFrom(t, k + 1, pos, acc)
    ELSE IF pos \in DashAt THEN (IF t[k] = Dash THEN ReadFrom(t, k + 1, pos + 1, acc) ELSE [ok |-> FALSE, u |-> NilUuid, used |-> k])
    ELSE IF HexVal(t[k]) >= 0 THEN ReadFrom(t, k + 1, pos + 1, Append(acc, t[k])) ELSE [ok |-> FALSE, u |-> NilUuid, used |-> k]
StreamRead(t) == ReadFrom(t, 1, 1, <<>>)
Fill(n, ch) == [k \in 1..(IF n > 0 THEN n ELSE 0) |-> ch]
StreamText(u, w, fill, adj, upper) ==
    LET t == Text(u, TRUE, upper) p == Fill(w - 36, fill)
    IN CASE adj \in {"right", "internal"} -> p \o t [] adj = "left" -> t \o p [] OTHER -> t
(* ---- generators ---- *)
NsDns == <<107, 167, 184, 16, 157, 173, 17, 209, 128, 180, 0, 192, 79, 212, 48, 200>>
NsUrl == [NsDns EXCEPT ![4] = 17]
NsOid == [NsDns EXCEPT ![4] = 18]
NsX500 == [NsDns EXCEPT ![4] = 20]
Namespace(s) == CASE s = "dns" -> NsDns [] s = "url" -> NsUrl [] s = "oid" -> NsOid [] s = "x500" -> NsX500 [] OTHER -> NilUuid
Named(alg, ns, name) == WithVersion(SubSeq(DigestOf(alg, ns \o name), 1, 16), IF alg = "md5" THEN 3 ELSE 5)
(* w: four 32-bit draws as pairs of halves, most significant first *)
FromDraws(w) == WithVersion(BigBytes(w), 4)
=============================================================================
