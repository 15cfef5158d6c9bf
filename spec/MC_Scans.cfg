INIT Init
NEXT Next
INVARIANTS FoldIsLastRunning ScanLen Split Regroup Inverse Shift NotCommutative
CHECK_DEADLOCK FALSE
