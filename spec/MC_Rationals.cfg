CONSTANTS K = 1
L = 3
SPECIFICATION Spec
INVARIANTS AllNormal Field Order GcdLaw
CHECK_DEADLOCK FALSE
