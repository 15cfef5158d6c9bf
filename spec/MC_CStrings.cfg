SPECIFICATION Spec
CONSTANTS A = {1, 2}
 L = 3
INVARIANTS Laws Buffers
CHECK_DEADLOCK FALSE
