CONSTANTS Top = 4 Den = 3
INIT Init
NEXT Next
INVARIANT Law
CHECK_DEADLOCK FALSE
