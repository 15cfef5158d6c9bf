INIT Init
NEXT Next
INVARIANT Law
CHECK_DEADLOCK FALSE
CONSTANTS
 M = 9
 K = 3
