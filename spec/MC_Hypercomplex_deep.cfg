CONSTANTS Bound = 4 Dim = 2 Most = 0
SPECIFICATION Spec
INVARIANTS Table Assoc Distrib Commute NormMul ConjAnti Inverse Norms Text Rounding
CHECK_DEADLOCK FALSE
