SPECIFICATION Spec
CONSTANTS Ids = {1, 2}
 MaxParts = 1
 Depth = 5
INVARIANTS AllConsistent Laws Faults RoundTrip
CHECK_DEADLOCK FALSE
