SPECIFICATION TraceSpec
CONSTANT Slots <- TSlots
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
