SPECIFICATION Spec
CONSTANTS MAXLEN = 5
MAXV = 2000
INVARIANTS ParseSane Horner DecSane RoundTrip Narrow OneText OneExp Reading
CHECK_DEADLOCK FALSE
