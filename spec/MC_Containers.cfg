CONSTANTS N = 4  K = 2
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
