CONSTANTS N = 3 M = 2
INIT Init
NEXT Next
INVARIANT Inv
PROPERTY Frame
CHECK_DEADLOCK FALSE
