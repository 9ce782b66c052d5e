SPECIFICATION MCSpec
CONSTANTS
 MaxLen = 5
 Float = FALSE
 Log = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Emit
