CONSTANTS
  N = 4
  D = 3
INIT Init
NEXT Next
INVARIANT Algebra
INVARIANT Frames
CHECK_DEADLOCK FALSE
