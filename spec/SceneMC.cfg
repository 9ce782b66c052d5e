SPECIFICATION Spec
CONSTANTS Ids = {1, 2}
 MaxParts = 2
 Depth = 2
INVARIANTS AllConsistent Laws Faults RoundTrip
CHECK_DEADLOCK FALSE
