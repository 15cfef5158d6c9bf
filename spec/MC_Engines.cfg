CONSTANTS LM = 5
          MAXSTEPS = 12
INIT Init
NEXT Next
INVARIANTS RangeOk TextOk JumpOk PeriodOk LfPeriodOk InvOk TemperOk TwistOk LcgInjective ShfOk
CHECK_DEADLOCK FALSE
