SPECIFICATION Spec
CONSTANTS R = 0
INVARIANTS Laws Range6
CHECK_DEADLOCK FALSE
