SPECIFICATION Spec
CONSTANTS MaxLen = 4 MaxVal = 2 Depth = 2
INVARIANTS Laws
CHECK_DEADLOCK FALSE
