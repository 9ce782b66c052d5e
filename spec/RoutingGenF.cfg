SPECIFICATION MCSpec
CONSTANTS
 Slots <- MSlots
 Kind = "filter"
 MaxOps = 12
 Log = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Emit
