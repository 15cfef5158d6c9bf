------------------------------ MODULE TraceBase ------------------------------
(* Common part of the trace specifications of stateless operations.          *)
(* A trace file holds one history (a sequence of events) per line; an event  *)
(* is one call of the real code with its arguments and its result.  A trace  *)
(* module EXTENDS this one, defines Accept(e) from the specification, and    *)
(* instantiates the transition relation with TraceInit/TraceStep.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, p        \* history number, events of it consumed so far

TraceInit == c = 0 /\ p = 0

PickHistory == c = 0 /\ c' \in 1..Len(Trace) /\ p' = 0

(* consume one event; a rejection is reported and the history goes on *)
Consume(Accept(_)) ==
    /\ c > 0 /\ p < Len(Trace[c])
    /\ c' = c /\ p' = p + 1
    /\ IF Accept(Trace[c][p + 1]) THEN TRUE ELSE PrintT(<<"REJECT", c, p + 1>>)
=============================================================================
