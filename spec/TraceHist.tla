------------------------------ MODULE TraceHist ------------------------------
(* Common part of the trace specifications of stateful objects: a history is *)
(* replayed event by event through the abstract state s.                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, p, s     \* history number, events consumed, abstract state

HistInit(s0) == c = 0 /\ p = 0 /\ s = s0

PickHistory == c = 0 /\ c' \in 1..Len(Trace) /\ p' = 0 /\ s' = s

(* ok(s,e): the specification allows event e in state s; nxt(s,e): the state after it.   *)
(* After a rejection the rest of the history is skipped (its state is no longer known).  *)
Consume(ok(_, _), nxt(_, _)) ==
    /\ c > 0 /\ p < Len(Trace[c])
    /\ c' = c
    /\ IF ok(s, Trace[c][p + 1])
         THEN p' = p + 1 /\ s' = nxt(s, Trace[c][p + 1])
         ELSE PrintT(<<"REJECT", c, p + 1>>) /\ p' = Len(Trace[c]) /\ s' = s
=============================================================================
