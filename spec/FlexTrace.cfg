SPECIFICATION TraceSpec
CONSTANT Null = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
INVARIANT Latency
