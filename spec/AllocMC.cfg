SPECIFICATION MCSpec
CONSTANTS
 N = 3
 U = {1,2,3,4}
 Depth = 99
 Log = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Exclusive Possible
PROPERTY Stable
