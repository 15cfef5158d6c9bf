------------------------------ MODULE MC_Uuid ------------------------------
(* Every accepted text of a uuid reads back as it; no text with one character *)
(* replaced, dropped, repeated or added at the end is read as anything but    *)
(* what its digits say.                                                       *)
EXTENDS Uuid, FiniteSets, TLC
CONSTANTS PATTERNS, SUBST
VARIABLES u, dashes, upper, braced, mut, at, ch
vars == <<u, dashes, upper, braced, mut, at, ch>>
Form == LET t == Text(u, dashes, upper) IN IF braced THEN <<OpenBrace>> \o t \o <<CloseBrace>> ELSE t
Init == /\ u \in {[k \in 1..16 |-> (p * k + q) % 256] : p \in PATTERNS, q \in PATTERNS}
        /\ dashes \in BOOLEAN /\ upper \in BOOLEAN /\ braced \in BOOLEAN
        /\ mut = "none" /\ at = 0 /\ ch = 0
Mutate == /\ mut = "none"
          /\ mut' \in {"replace", "drop", "repeat", "append"}
          /\ at' \in (IF mut' = "append" THEN {1} ELSE 1..Len(Form))
          /\ ch' \in (IF mut' \in {"replace", "append"} THEN SUBST ELSE {0})
          /\ UNCHANGED <<u, dashes, upper, braced>>
Next == Mutate
Spec == Init /\ [][Next]_vars
Mutant == LET t == Form IN
    CASE mut = "none" -> t
      [] mut = "replace" -> [t EXCEPT ![at] = ch]
      [] mut = "drop" -> SubSeq(t, 1, at - 1) \o SubSeq(t, at + 1, Len(t))
      [] mut = "repeat" -> SubSeq(t, 1, at) \o SubSeq(t, at, Len(t))
      [] OTHER -> Append(t, ch)
RoundTrip == mut = "none" => Parse(Form) = [ok |-> TRUE, u |-> u]
Rejects == mut \in {"drop", "repeat", "append"} => ~Parse(Mutant).ok
Replaced == mut = "replace" =>
    LET r == Parse(Mutant) IN
    IF Form[at] \in {Dash, OpenBrace, CloseBrace} THEN r.ok = (ch = Form[at])
    ELSE /\ r.ok = (HexVal(ch) >= 0)
         /\ r.ok => Cardinality({k \in 1..16 : r.u[k] # u[k]}) <= 1
Streams == mut = "none" => /\ StreamRead(StreamText(u, 0, 42, "left", upper)) = [ok |-> TRUE, u |-> u, used |-> 36]
                           /\ Len(StreamText(u, 40, 42, "right", upper)) = 40
                           /\ ~StreamRead(Text(u, FALSE, upper)).ok
Marked == mut = "none" => \A v \in 1..5 : Version(WithVersion(u, v)) = v /\ Variant(WithVersion(u, v)) = "rfc"
Known == u = NilUuid /\ mut = "none" =>     \* RFC 4122 appendix B, corrected; and python's documentation
    /\ Named("md5", NsDns, <<112, 121, 116, 104, 111, 110, 46, 111, 114, 103>>) = <<111, 164, 89, 234, 238, 138, 60, 164, 137, 78, 219, 119, 225, 96, 53, 94>>
    /\ Named("sha1", NsDns, <<112, 121, 116, 104, 111, 110, 46, 111, 114, 103>>) = <<136, 99, 19, 225, 59, 138, 83, 114, 155, 144, 12, 154, 238, 25, 158, 93>>
=============================================================================
