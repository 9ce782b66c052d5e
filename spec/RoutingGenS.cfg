SPECIFICATION MCSpec
CONSTANTS
 Slots <- MSlots
 Kind = "sparse"
 MaxOps = 12
 Log = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Emit
