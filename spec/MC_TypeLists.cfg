INIT Init
NEXT Next
INVARIANT Law
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 4
  V = 2
  B = 6
