CONSTANT Far = 4
SPECIFICATION Spec
INVARIANTS Canonical Order Sums Nearest Whole4 Exps Rests
CHECK_DEADLOCK FALSE
