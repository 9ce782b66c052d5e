SPECIFICATION MCSpec
CONSTANTS
 MaxLen = 4
 Float = TRUE
 Log = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Emit
