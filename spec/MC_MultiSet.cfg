CONSTANTS K = 3  N = 4
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
