SPECIFICATION MCSpec
CONSTANTS
 Slots <- MSlots
 Kind = "signal"
 MaxOps = 12
 Log = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Emit
