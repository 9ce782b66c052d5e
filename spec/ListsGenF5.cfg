SPECIFICATION MCSpec
CONSTANTS
 MaxLen = 5
 Float = TRUE
 Log = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Emit
