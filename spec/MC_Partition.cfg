CONSTANTS K = 4  N = 5
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
