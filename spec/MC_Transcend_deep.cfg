CONSTANTS Top = 9 Den = 4
INIT Init
NEXT Next
INVARIANT Law
CHECK_DEADLOCK FALSE
