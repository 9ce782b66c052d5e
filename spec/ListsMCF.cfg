SPECIFICATION MCSpec
CONSTANTS
 MaxLen = 3
 Float = TRUE
 Log = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Blanks Joined NonNegative Trailing
