CONSTANT Depth = 2
SPECIFICATION Spec
INVARIANTS TypeOK RoundTrip OneMore Laws Monotone Classical Exclusive
CHECK_DEADLOCK FALSE
