SPECIFICATION MCSpec
CONSTANTS
 MaxLen = 4
 Float = FALSE
 Log = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Emit
