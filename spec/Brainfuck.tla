----------------------------- MODULE Brainfuck -----------------------------
(* The machine: a program counter, a head on a tape of wrapping cells, an      *)
(* input consumed in order and an output of bounded length.  Characters are   *)
(* codes; a cell holds lo .. lo + 255 (one byte) or a wider range.             *)
EXTENDS Naturals, Integers, Sequences
Right == 62  Left == 60  Plus == 43  Minus == 45  Dot == 46  Comma == 44  Open == 91  Close == 93
Commands == {Right, Left, Plus, Minus, Dot, Comma, Open, Close}
RECURSIVE Balance(_, _, _)
(* nesting depth after the first k characters, -1 once it went below zero *)
Balance(p, k, d) == IF k > Len(p) \/ d < 0 THEN d ELSE Balance(p, k + 1, IF p[k] = Open THEN d + 1 ELSE IF p[k] = Close THEN d - 1 ELSE d)
WellFormed(p) == Balance(p, 1, 0) = 0
RECURSIVE Match(_, _, _, _)
(* the partner of the bracket next to place k, seeking in direction s *)
Match(p, k, s, d) ==
    LET in == IF s = 1 THEN Open ELSE Close out == IF s = 1 THEN Close ELSE Open
    IN IF p[k] = out /\ d = 0 THEN k ELSE Match(p, k + s, s, IF p[k] = in THEN d + 1 ELSE IF p[k] = out THEN d - 1 ELSE d)
Wrap(x, lo, n) == lo + ((x - lo) % n)
(* machine state: [pc, pos, tape, ip, out, err]; K: [lo, n] of a cell, cap: the places for output, inp: input or <<>> with endless zeros *)
Start(size) == [pc |-> 1, pos |-> 1, tape |-> [k \in 1..size |-> 0], ip |-> 1, out |-> <<>>, err |-> "none"]
OnTape(m) == m.pos \in 1..Len(m.tape)
Cell(m) == m.tape[m.pos]
Go(m) == [m EXCEPT !.pc = @ + 1]
Step(p, inp, endless, cap, K, m) ==
    LET i == p[m.pc] IN
    CASE i = Right -> [Go(m) EXCEPT !.pos = @ + 1]
      [] i = Left -> [Go(m) EXCEPT !.pos = @ - 1]
      [] i \in Commands \ {Right, Left} /\ ~OnTape(m) /\ ~(i = Dot /\ Len(m.out) = cap) /\ i # Comma -> [m EXCEPT !.err = "tape"]
      [] i = Plus -> [Go(m) EXCEPT !.tape[m.pos] = Wrap(@ + 1, K.lo, K.n)]
      [] i = Minus -> [Go(m) EXCEPT !.tape[m.pos] = Wrap(@ - 1, K.lo, K.n)]
      [] i = Dot -> IF Len(m.out) = cap THEN [m EXCEPT !.err = "output"] ELSE [Go(m) EXCEPT !.out = Append(@, Cell(m))]
      [] i = Comma -> IF ~endless /\ m.ip > Len(inp) THEN [m EXCEPT !.err = "input"]
                      ELSE IF ~OnTape(m) THEN [m EXCEPT !.err = "undefined"]     \* the code drops the character; not promised
                      ELSE [Go(m) EXCEPT !.tape[m.pos] = Wrap(IF endless THEN 0 ELSE inp[m.ip], K.lo, K.n), !.ip = @ + 1]
      [] i = Open -> IF Cell(m) = 0 THEN [m EXCEPT !.pc = Match(p, m.pc + 1, 1, 0) + 1] ELSE Go(m)
      [] i = Close -> IF Cell(m) # 0 THEN [m EXCEPT !.pc = Match(p, m.pc - 1, -1, 0) + 1] ELSE Go(m)
      [] OTHER -> Go(m)
Halted(p, m) == m.err # "none" \/ m.pc > Len(p)
RECURSIVE Run(_, _, _, _, _, _, _)
Run(p, inp, endless, cap, K, m, fuel) == IF Halted(p, m) THEN m ELSE IF fuel = 0 THEN [m EXCEPT !.err = "fuel"] ELSE Run(p, inp, endless, cap, K, Step(p, inp, endless, cap, K, m), fuel - 1)
(* ---- translations: the first spelling in the table that fits, else one     *)
(* character for a space; a table entry is <<command, first, second>> with    *)
(* white space allowed before the second part, or <<command, text>>           *)
IsBlank(ch) == ch \in 9..13 \cup {32}
At(t, k, w) == k + Len(w) - 1 <= Len(t) /\ \A j \in 1..Len(w) : t[k + j - 1] = w[j]
RECURSIVE Blanks(_, _)
Blanks(t, k) == IF k <= Len(t) /\ IsBlank(t[k]) THEN Blanks(t, k + 1) ELSE k
Fit(t, k, e) == \* the place after the entry, or 0
    IF ~At(t, k, e[2]) THEN 0
    ELSE IF Len(e) = 2 THEN k + Len(e[2])
    ELSE LET q == Blanks(t, k + Len(e[2])) IN IF At(t, q, e[3]) THEN q + Len(e[3]) ELSE 0
RECURSIVE FirstFit(_, _, _, _)
FirstFit(t, k, tab, j) == IF j > Len(tab) THEN <<32, k + 1>> ELSE LET q == Fit(t, k, tab[j]) IN IF q > 0 THEN <<tab[j][1], q>> ELSE FirstFit(t, k, tab, j + 1)
RECURSIVE Translate(_, _, _, _)
Translate(t, k, tab, cap) == IF k > Len(t) \/ cap = 0 THEN <<>> ELSE LET f == FirstFit(t, k, tab, 1) IN <<f[1]>> \o Translate(t, f[2], tab, cap - 1)
OokD == <<79, 111, 107, 46>>  OokQ == <<79, 111, 107, 63>>  OokB == <<79, 111, 107, 33>>
OokTable == << <<Right, OokD, OokQ>>, <<Left, OokQ, OokD>>, <<Plus, OokD, OokD>>, <<Minus, OokB, OokB>>,
               <<Dot, OokB, OokD>>, <<Comma, OokD, OokB>>, <<Open, OokB, OokQ>>, <<Close, OokQ, OokB>> >>
MisaTable == << <<Right, <<62>>>>, <<Right, <<129, 168>>>>, <<Right, <<129, 96>>>>, <<Right, <<129, 91>>>>,
                <<Left, <<60>>>>, <<Left, <<129, 169>>>>, <<Left, <<129, 154>>>>, <<Left, <<129, 153>>>>,
                <<Plus, <<43>>>>, <<Plus, <<130, 160>>>>, <<Plus, <<130, 159>>>>, <<Plus, <<130, 168>>>>, <<Plus, <<130, 167>>>>,
                <<Minus, <<45>>>>, <<Minus, <<130, 193>>>>, <<Minus, <<131, 98>>>>,
                <<Dot, <<46>>>>, <<Dot, <<129, 73>>>>, <<Comma, <<44>>>>, <<Comma, <<129, 72>>>>,
                <<Open, <<91>>>>, <<Open, <<129, 117>>>>, <<Open, <<129, 119>>>>, <<Close, <<93>>>>, <<Close, <<129, 118>>>>, <<Close, <<129, 120>>>> >>
=============================================================================
