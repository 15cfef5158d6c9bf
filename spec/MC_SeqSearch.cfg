CONSTANTS K = 2  NA = 5  NB = 4
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
