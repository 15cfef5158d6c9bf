CONSTANTS Bound = 1 Dim = 4 Most = 4
SPECIFICATION Spec
INVARIANTS Table Assoc Distrib Commute NormMul ConjAnti Inverse Norms Text Rounding
CHECK_DEADLOCK FALSE
