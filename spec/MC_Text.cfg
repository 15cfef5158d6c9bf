SPECIFICATION Spec
CONSTANTS MAXLEN = 4
MAXV = 300
INVARIANTS ParseSane Horner DecSane RoundTrip Narrow OneText OneExp Reading
CHECK_DEADLOCK FALSE
