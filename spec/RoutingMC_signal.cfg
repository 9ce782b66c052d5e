SPECIFICATION MCSpec
CONSTANTS
 Slots <- MSlots
 Kind = "signal"
 MaxOps = 3
 Log = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS KeysUnique CompUnique AddWins RemoveGone FailedParseKeeps
