SPECIFICATION Spec
CONSTANTS MAXN = 70
CUTS = {1, 13, 63, 64, 65}
INVARIANTS Chunks Known Shape
CHECK_DEADLOCK FALSE
