SPECIFICATION Spec
CONSTANTS Ids = {1}
 MaxParts = 2
 Depth = 4
INVARIANTS AllConsistent Laws Faults RoundTrip
CHECK_DEADLOCK FALSE
