CONSTANTS K = 2
L = 4
SPECIFICATION Spec
INVARIANTS AllNormal Field Order GcdLaw
CHECK_DEADLOCK FALSE
