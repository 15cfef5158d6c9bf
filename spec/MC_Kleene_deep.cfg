CONSTANT Depth = 4
SPECIFICATION Spec
INVARIANTS TypeOK RoundTrip OneMore Laws Monotone Classical Exclusive
CHECK_DEADLOCK FALSE
