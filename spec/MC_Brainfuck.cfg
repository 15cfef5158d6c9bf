SPECIFICATION Spec
CONSTANTS
  MAXLEN = 5
  TAPE = 2
  CAP = 2
  INPUT <- Inp
  FUEL = 20
INVARIANTS Sane Errors Deterministic OokBack
PROPERTIES Grow
CHECK_DEADLOCK FALSE
