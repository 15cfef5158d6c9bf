SPECIFICATION Spec
CONSTANTS
  PATTERNS = {0, 17, 91}
  SUBST = {45, 123, 125, 48, 57, 58, 47, 65, 70, 71, 97, 102, 103, 64, 96, 32, 0}
INVARIANTS RoundTrip Rejects Replaced Streams Marked Known
CHECK_DEADLOCK FALSE
