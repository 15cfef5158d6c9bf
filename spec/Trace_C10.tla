------------------------------ MODULE Trace_C10 ------------------------------
EXTENDS TraceBase, Containers
Accept(e) == CASE e.o = "paths" -> PathsAgree(e) [] e.o = "cmp" -> ComparesOk(e)
TraceNext == PickHistory \/ Consume(Accept)
=============================================================================
