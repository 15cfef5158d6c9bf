------------------------------- MODULE Pipelines ------------------------------
(* A pipeline of range adaptors denotes the composition of their definitions.  *)
(* A stage is <<kind, x, y, second sequence>>.                                 *)
EXTENDS Ranges
PMin(v, w) == IF v < w THEN v ELSE w
Tk(a, n) == SubSeq(a, 1, PMin(n, Len(a)))
Dr(a, n) == SubSeq(a, n + 1, Len(a))
Last(a, n) == SubSeq(a, Len(a) - PMin(n, Len(a)) + 1, Len(a))
ButLast(a, n) == SubSeq(a, 1, Len(a) - PMin(n, Len(a)))
Twice1(v) == 2 * v + 1
Changed(a, from, to) == [i \in 1..Len(a) |-> IF i > from /\ i <= to THEN Twice1(a[i]) ELSE a[i]]     \* the adaptor on a part
Stage(s, a) ==
    LET k == s[1] x == s[2] y == s[3] b == s[4] n == Len(a) IN
    CASE k = "taken" -> Tk(a, x)
      [] k = "dropped" -> Dr(a, x)
      [] k = "taken_end" -> Last(a, -x)
      [] k = "dropped_end" -> ButLast(a, -x)
      [] k = "offset" -> LET d == Dr(a, x) IN ButLast(d, -y)
      [] k = "window" -> Dr(Tk(a, y), x)
      [] k = "steps" -> EveryNth(Dr(a, y), x)
      [] k = "filled" -> [i \in 1..n |-> x]
      [] k = "blanked" -> [i \in 1..PMin(y, n) |-> x]
      [] k = "counting" -> [i \in 1..PMin(y, n) |-> x + i - 1]
      [] k = "on_taken" -> Changed(a, 0, x)
      [] k = "on_dropped" -> Changed(a, x, n)
      [] k = "on_taken_end" -> Changed(a, n + x, n)
      [] k = "on_dropped_end" -> Changed(a, 0, n + x)
      [] k = "on_window" -> Changed(a, x, y)
      [] k = "on_offset" -> Changed(a, x, n + y)
      [] k = "alternate" -> LET m == PMin(n, Len(b)) IN Interleave(Tk(a, m), Tk(b, m))
      [] OTHER -> Denote(k, a, b, x, y)
RECURSIVE Pipe(_, _)
Pipe(st, a) == IF st = << >> THEN a ELSE Pipe(Tail(st), Stage(Head(st), a))
(* what a fixed container receives when the view is copied into it *)
CopiedInto(z, s) == [i \in 1..Len(z) |-> IF i <= Len(s) THEN s[i] ELSE z[i]]
(* the positions of a that a view of positions designates *)
Designated(st, n) == LET idx == Pipe(st, [i \in 1..n |-> i]) IN {idx[i] : i \in 1..Len(idx)}
===============================================================================
