SPECIFICATION Spec
CONSTANTS MaxLen = 5 MaxVal = 1 MaxDim = 2 MaxStride = 2
INVARIANTS GsliceIsClosedForm ScatterThenSelect MaskLaw ShiftLaws DivLaw
CHECK_DEADLOCK FALSE
