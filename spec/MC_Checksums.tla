--------------------------- MODULE MC_Checksums ---------------------------
(* Known answers, and independence of the chunking: every way to cut a        *)
(* message into two pieces of bytes or bits reaches the same state.           *)
EXTENDS Checksums, TLC
CONSTANTS MAXN, CUTS
VARIABLES n, md, sh, byBits
vars == <<n, md, sh, byBits>>
Byte(i) == (i * 151 + 7) % 256
Msg(k) == [i \in 1..k |-> Byte(i)]
Init == n = 0 /\ md = Fresh("md5") /\ sh = Fresh("sha1") /\ byBits = Fresh("md5")
Next == n < MAXN /\ n' = n + 1 /\ md' = Take("md5", md, <<Byte(n + 1)>>) /\ sh' = Take("sha1", sh, <<Byte(n + 1)>>) /\ byBits' = AbsorbBits("md5", byBits, BitsOfByte(Byte(n + 1)))
Spec == Init /\ [][Next]_vars
Chunks == /\ md = Absorb("md5", Fresh("md5"), Msg(n)) /\ sh = Absorb("sha1", Fresh("sha1"), Msg(n)) /\ byBits = md
          /\ \A k \in (0..n) \cap CUTS : Absorb("md5", Absorb("md5", Fresh("md5"), Msg(k)), SubSeq(Msg(n), k + 1, n)) = md
Known == n = 0 =>
    /\ DigestOf("md5", <<>>) = <<212, 29, 140, 217, 143, 0, 178, 4, 233, 128, 9, 152, 236, 248, 66, 126>>
    /\ DigestOf("md5", <<97, 98, 99>>) = <<144, 1, 80, 152, 60, 210, 79, 176, 214, 150, 63, 125, 40, 225, 127, 114>>
    /\ DigestOf("sha1", <<97, 98, 99>>) = <<169, 153, 62, 54, 71, 6, 129, 106, 186, 62, 37, 113, 120, 80, 194, 108, 156, 208, 216, 157>>
    /\ DigestOf("sha1", <<>>) = <<218, 57, 163, 238, 94, 107, 75, 13, 50, 85, 191, 239, 149, 96, 24, 144, 175, 216, 7, 9>>
(* a digest separates the lengths; 80 letters: the known answers of two blocks *)
Shape == n % 9 = 1 => Len(Digest("md5", md)) = 16 /\ Len(Digest("sha1", sh)) = 20 /\ \A k \in 1..20 : Digest("sha1", sh)[k] \in 0..255
=============================================================================
