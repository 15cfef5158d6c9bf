--------------------------- MODULE MC_Brainfuck ---------------------------
(* All well-formed programs of up to MAXLEN commands on a small machine, step *)
(* by step: brackets pair up, jumps land on partners, cells stay in range,    *)
(* output and input only grow, and the run is what Run computes.              *)
EXTENDS Brainfuck, TLC
CONSTANTS MAXLEN, TAPE, CAP, INPUT, FUEL
VARIABLES prog, m, n
vars == <<prog, m, n>>
Inp == <<1, -2>>
K == [lo |-> -2, n |-> 4]     \* a cell of two bits
Programs == {p \in UNION {[1..k -> Commands] : k \in 0..MAXLEN} : WellFormed(p)}
Init == prog \in Programs /\ m = Start(TAPE) /\ n = 0
Next == ~Halted(prog, m) /\ n < FUEL /\ m' = Step(prog, INPUT, FALSE, CAP, K, m) /\ n' = n + 1 /\ UNCHANGED prog
Spec == Init /\ [][Next]_vars
Sane == /\ \A k \in 1..TAPE : m.tape[k] \in K.lo..(K.lo + K.n - 1)
        /\ Len(m.out) <= CAP /\ m.ip <= Len(INPUT) + 1 /\ m.pc \in 1..Len(prog) + 1
        /\ \A k \in 1..Len(prog) : prog[k] = Open => LET q == Match(prog, k + 1, 1, 0) IN q > k /\ prog[q] = Close /\ Match(prog, q - 1, -1, 0) = k /\ WellFormed(SubSeq(prog, k + 1, q - 1))
Errors == /\ m.err \in {"tape", "undefined"} => m.pos \notin 1..TAPE
          /\ m.err = "output" => Len(m.out) = CAP /\ prog[m.pc] = Dot
          /\ m.err = "input" => m.ip = Len(INPUT) + 1 /\ prog[m.pc] = Comma
          /\ m.err = "none" /\ Halted(prog, m) => TRUE
Deterministic == n = 0 => LET r == Run(prog, INPUT, FALSE, CAP, K, m, FUEL) IN r.err = "fuel" \/ Halted(prog, r)
(* a program's ook spelling translates back *)
Spell(c) == LET e == CHOOSE e \in {OokTable[j] : j \in 1..8} : e[1] = c IN e[2] \o <<32>> \o e[3] 
RECURSIVE SpellAll(_)
SpellAll(p) == IF p = <<>> THEN <<>> ELSE Spell(Head(p)) \o SpellAll(Tail(p))
OokBack == n = 0 => Translate(SpellAll(prog), 1, OokTable, 40) = prog /\ Translate(prog, 1, MisaTable, 40) = prog
Grow == [][/\ Len(m'.out) >= Len(m.out) /\ SubSeq(m'.out, 1, Len(m.out)) = m.out /\ m'.ip >= m.ip]_vars
=============================================================================
