----------------------------- MODULE MC_Pipelines -----------------------------
(* Pipelines grow one adaptor at a time; the laws that relate adaptors hold of *)
(* whatever sequence a pipeline has produced.                                  *)
EXTENDS Pipelines
CONSTANTS MaxLen, MaxVal, Depth
VARIABLES a, st
Seqs(n) == UNION {[1..m -> 0..MaxVal] : m \in 0..n}
NoB == << >>
Stages == {<<"reverse", 0, 0, NoB>>, <<"transform", 0, 0, NoB>>, <<"filter", 0, 0, NoB>>, <<"unique", 0, 0, NoB>>, <<"taken", 2, 0, NoB>>,
           <<"dropped", 1, 0, NoB>>, <<"taken_end", -2, 0, NoB>>, <<"dropped_end", -1, 0, NoB>>, <<"offset", 1, -1, NoB>>, <<"window", 1, 3, NoB>>,
           <<"joint", 0, 0, <<1, 2>> >>, <<"step", 2, 0, NoB>>, <<"alternate", 0, 0, <<5, 6, 7>> >>, <<"on_window", 1, 2, NoB>>}
Init == a \in Seqs(MaxLen) /\ st = << >>
Next == Len(st) < Depth /\ a' = a /\ \E s \in Stages : st' = Append(st, s)
Spec == Init /\ [][Next]_<<a, st>>
P == Pipe(st, a)
S(k, x, y, s) == Stage(<<k, x, y, NoB>>, s)
J(s, t) == Stage(<<"joint", 0, 0, t>>, s)
Laws ==
    /\ S("reverse", 0, 0, S("reverse", 0, 0, P)) = P
    /\ \A n \in 0..4 :
        /\ J(S("taken", n, 0, P), S("dropped", n, 0, P)) = P
        /\ J(S("dropped_end", -n, 0, P), S("taken_end", -n, 0, P)) = P
        /\ S("taken_end", -n, 0, P) = S("reverse", 0, 0, S("taken", n, 0, S("reverse", 0, 0, P)))
        /\ \A m \in 0..3 : /\ S("window", n, n + m, P) = S("taken", m, 0, S("dropped", n, 0, P))
                           /\ S("offset", n, -m, P) = S("dropped_end", -m, 0, S("dropped", n, 0, P))
                           /\ S("dropped", m, 0, S("dropped", n, 0, P)) = S("dropped", n + m, 0, P)
                           /\ J(J(S("taken", n, 0, P), S("transform", 0, 0, S("window", n, n + m, P))), S("dropped", n + m, 0, P)) = S("on_window", n, n + m, P)
                           /\ J(J(S("taken", n, 0, P), S("transform", 0, 0, S("offset", n, -m, P))), S("taken_end", -PMin(m, Len(S("dropped", n, 0, P))), 0, P)) = S("on_offset", n, -m, P)
    /\ S("reverse", 0, 0, S("filter", 0, 0, P)) = S("filter", 0, 0, S("reverse", 0, 0, P))
    /\ S("filter", 0, 0, J(P, a)) = J(S("filter", 0, 0, P), S("filter", 0, 0, a))
    /\ Len(S("step", 2, 0, P)) + Len(S("steps", 2, 1, P)) = Len(P)
    /\ (Len(P) > 0 => Interleave(P, P)[2 * Len(P)] = P[Len(P)])
===============================================================================
