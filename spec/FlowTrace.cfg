SPECIFICATION TraceSpec
CONSTANT MODE <- TMode
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
