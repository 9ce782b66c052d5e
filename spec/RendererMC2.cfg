SPECIFICATION Spec
CONSTANTS R = 1
INVARIANTS Laws Range6
CHECK_DEADLOCK FALSE
