SPECIFICATION Spec
CONSTANTS
  MAXLEN = 6
  TAPE = 2
  CAP = 2
  INPUT <- Inp
  FUEL = 30
INVARIANTS Sane Errors Deterministic OokBack
PROPERTIES Grow
CHECK_DEADLOCK FALSE
