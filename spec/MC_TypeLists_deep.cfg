INIT Init
NEXT Next
INVARIANT Law
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 7
  V = 2
  B = 14
