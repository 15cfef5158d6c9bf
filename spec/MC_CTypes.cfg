INIT Init
NEXT Next
INVARIANTS Partition Case Digits
CHECK_DEADLOCK FALSE
