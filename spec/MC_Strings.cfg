CONSTANTS N = 3 M = 2
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
