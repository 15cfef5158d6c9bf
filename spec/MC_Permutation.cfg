SPECIFICATION Spec
CONSTANTS K = 3
 N = 5
INVARIANTS Least Inverse Complete Wrap
CHECK_DEADLOCK FALSE
