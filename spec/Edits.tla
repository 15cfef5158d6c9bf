------------------------------- MODULE Edits -------------------------------
(* C09: edits of a sequence.  pos counts from 0.                             *)
EXTENDS Windows

InsertAt(s, pos, x) == SubSeq(s, 1, pos) \o x \o Drop(s, pos)
EraseAt(s, pos, k) == SubSeq(s, 1, pos) \o Drop(s, pos + k)
RECURSIVE Times(_, _)
Times(x, n) == IF n = 0 THEN << >> ELSE x \o Times(x, n - 1)
Padded(s, n, v) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE v]
PaddedFront(s, n, v) == [i \in 1..n |-> IF i + Len(s) > n THEN s[i + Len(s) - n] ELSE v]

(* the edit on the window's content: position in the window, how many elements go, which come *)
EditPos(e, n) == CASE e.o \in {"insert", "erase"} -> e.pos
                   [] e.o = "append" -> e.pos
                   [] e.o \in {"push_back", "append_back"} -> n
                   [] e.o \in {"push_front", "append_front", "pop_front"} -> 0
                   [] e.o = "pop_back" -> n - e.k
Gone(e) == IF e.o \in {"erase", "pop_back", "pop_front"} THEN e.k ELSE 0
Coming(e) == IF "x" \in DOMAIN e THEN Times(e.x, e.n) ELSE << >>
Edited(e, s) == InsertAt(EraseAt(s, EditPos(e, Len(s)), Gone(e)), EditPos(e, Len(s)), Coming(e))
=============================================================================
