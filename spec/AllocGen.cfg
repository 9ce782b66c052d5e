SPECIFICATION MCSpec
CONSTANTS
 N = 2
 U = {1,2,3}
 Depth = 3
 Log = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Emit
