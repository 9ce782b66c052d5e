SPECIFICATION Spec
CONSTANT R = 2
INVARIANTS Direction NonNegative OneChoice OrderFree Own PlaneHeight Moved Unit
CHECK_DEADLOCK FALSE
