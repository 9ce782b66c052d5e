SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
INVARIANTS AtMostOneSender QueueArity ForeignNeverAttached
