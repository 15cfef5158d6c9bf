INIT Init
NEXT Next
INVARIANT Law
CHECK_DEADLOCK FALSE
CONSTANTS
 LEN = 3
 DEPTH = 2
