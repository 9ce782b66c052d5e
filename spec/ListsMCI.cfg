SPECIFICATION MCSpec
CONSTANTS
 MaxLen = 4
 Float = FALSE
 Log = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Blanks Joined NonNegative Trailing RangeOk
