INIT Init
NEXT Next
INVARIANT Law
CHECK_DEADLOCK FALSE
CONSTANTS
 LEN = 4
 DEPTH = 1
