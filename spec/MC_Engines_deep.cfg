CONSTANTS LM = 12
          MAXSTEPS = 70
INIT Init
NEXT Next
INVARIANTS RangeOk TextOk JumpOk PeriodOk LfPeriodOk InvOk TemperOk TwistOk LcgInjective ShfOk
CHECK_DEADLOCK FALSE
