SPECIFICATION Spec
CONSTANT R = 4
INVARIANTS Direction NonNegative OneChoice OrderFree Own PlaneHeight Moved Unit
CHECK_DEADLOCK FALSE
