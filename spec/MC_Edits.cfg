CONSTANTS K = 3  N = 5
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
