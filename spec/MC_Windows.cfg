CONSTANTS N = 3  V = 1
INIT Init
NEXT Next
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
