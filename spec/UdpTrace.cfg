SPECIFICATION TraceSpec
CONSTANT Fits <- FitsUdp
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
