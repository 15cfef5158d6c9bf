SPECIFICATION Spec
CONSTANTS MaxLen = 5 MaxVal = 3
INVARIANTS Refines Laws
CHECK_DEADLOCK FALSE
